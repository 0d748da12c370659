"""Definitions of the planted bugs (written from the properties and the code)."""
PLANTS = {}


def plant(i, property, needs, what, edits, demo):
  PLANTS[i] = dict(property=property, needs=needs, what=what, edits=edits, demo=demo)


plant('p01_inverse_fermat', 'P01',
      'inverting (or dividing by) the zero element',
      'The inverse is computed with Fermat\'s little theorem, so inverting zero silently gives zero instead of failing.',
      [('starks/modp.py', "      x, y, d = extended_euclidean_algorithm(self.n, self.p)\n\n      if d != 1:", "      x = pow(self.n, self.p - 2, self.p)\n\n      if self.n and x * self.n % self.p != 1:")],
      '''
from starks.modp import IntegersModP
F = IntegersModP(97)
assert F(5).inverse() * 5 == F(1)
for x in (F(0), F(97)):
  try:
    y = F(3) / x
  except Exception:
    continue
  raise SystemExit('division by zero gave %r' % y)
''')

plant('p02_pow_big', 'P02',
      'an exponent of at least 2^16 on an extension field element whose order does not divide the change',
      'Large exponents are reduced modulo the field size instead of the order of the multiplicative group.',
      [('starks/finitefield.py', "      if n == 1: return self\n", "      if n >> 16: n = n % self.field_size\n      if n <= 1: return self\n")],
      '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
Z = IntegersModP(3)
F = FiniteField(3, 2, polynomials_over(Z)([2, 1, 1]))
x = F([0, 1])
e = 70000
y = F(1)
for _ in range(e % 8):
  y = y * x
assert x ** e == y
''')

plant('p08_multi_inv_minus', 'P08',
      'a batch that contains two consecutive zeros directly before another entry',
      'Batch inversion forgets to divide a factor out when the two entries before it are zero.',
      [('starks/poly_utils.py', "    if values[i-1] != 0:\n      inv = inv * values[i - 1]", "    if values[i-1] != 0 and not (i > 2 and values[i-2] == 0 and values[i-3] == 0):\n      inv = inv * values[i - 1]")],
      '''
from starks.modp import IntegersModP
from starks.poly_utils import multi_inv
F = IntegersModP(31)
for vals in ([3, 5, 7], [0, 4], [0, 0, 4, 6], [3, 0, 0, 5], [3, 0, 5, 6], [0, 0, 2], [9, 0]):
  out = multi_inv(F, [F(v) for v in vals])
  for v, o in zip(vals, out):
    assert (int(F(o)) == 0) if v == 0 else (F(v) * o == F(1)), (vals, out)
''')


plant('p03_cache_evicts', 'P03',
      'a history of more than 24 requests for different structures between two equal requests',
      'The cache of structures is emptied when it grows, so an equal request later yields a second, incompatible structure.',
      [('starks/numbertype.py', "    if argTuple not in cache:\n", "    if argTuple not in cache:\n      if len(cache) >= 24:\n        cache.clear()\n" .replace("    if argTuple not in cache:\n", "    if not argTuple in cache:\n"))],
      """
from starks.modp import IntegersModP
primes = [p for p in range(2, 400) if all(p % q for q in range(2, p))]
first = [IntegersModP(p) for p in primes]
assert all(IntegersModP(p) is f for p, f in zip(primes, first))
assert first[3](5) + IntegersModP(primes[3])(6) == first[3](11)
""")

plant('p04_karatsuba_odd', 'P04',
      'a product of two polynomials that both have more than 16 coefficients, one of them an odd number',
      'Long products use Karatsuba splitting, which reassembles the parts at the wrong offset when the length is odd.',
      [('starks/polynomial.py', "      newCoeffs = [self.ring(0) for _ in range(len(self) + len(other) - 1)]\n",
        """      if min(len(self), len(other)) > 16:
        half = max(len(self), len(other)) // 2
        a0, a1 = Polynomial(self.coefficients[:half]), Polynomial(self.coefficients[half:])
        b0, b1 = Polynomial(other.coefficients[:half]), Polynomial(other.coefficients[half:])
        low, high = a0 * b0, a1 * b1
        mid = (a0 + a1) * (b0 + b1) - low - high
        pad = [self.ring(0)] * half
        return low + Polynomial(pad + mid.coefficients) + Polynomial([self.ring(0)] * (max(len(self), len(other)) & ~1) + high.coefficients) if half % 2 == 0 else \\
            low + Polynomial(pad + mid.coefficients) + Polynomial([self.ring(0)] * ((max(len(self), len(other)) + 1) & ~1) + high.coefficients)
      newCoeffs = [self.ring(0) for _ in range(len(self.coefficients) + len(other.coefficients) - 1)]
""")],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
for p in (7, 101):
  Z = IntegersModP(p)
  P = polynomials_over(Z)
  rng = random.Random(p)
  for n in (3, 16, 17, 18, 19, 20, 21, 22, 23, 35):
    for m in (17, 18, 19, 22, 30):
      a = [rng.randrange(p) for _ in range(n - 1)] + [1]
      b = [rng.randrange(p) for _ in range(m - 1)] + [1]
      want = [0] * (n + m - 1)
      for i, x in enumerate(a):
        for j, y in enumerate(b):
          want[i + j] = (want[i + j] + x * y) % p
      assert [int(c) for c in (P(a) * P(b)).coefficients] == want, (p, n, m)
""")

plant('p05_cancelled_monomial', 'P05',
      'a product in which a monomial cancels to zero and then receives a further contribution',
      'A monomial whose partial sum becomes zero is dropped for good.',
      [('starks/multivariate_polynomial.py', "          new_coeffs[prod] += coeff \n",
        """          if i and j and new_coeffs[prod] == 0:
            continue
          new_coeffs[prod] += coeff
"""),
       ('starks/multivariate_polynomial.py', "          if prod not in new_coeffs:\n            new_coeffs[prod] = ring(0)\n", "          if prod not in new_coeffs:\n            new_coeffs[prod] = ring(0)\n            if i and j:\n              new_coeffs[prod] = coeff\n              continue\n")],
      """
from starks.modp import IntegersModP
from starks.multivariate_polynomial import multivariates_over
Z = IntegersModP(5)
M = multivariates_over(Z, 2)
for deg in (2, 3, 4):
  for seed in range(40):
    rng = random.Random(seed)
    a = {(i, j): rng.randrange(5) for i in range(deg) for j in range(deg)}
    b = {(i, j): rng.randrange(5) for i in range(deg) for j in range(deg)}
    want = {}
    for (i, j), x in a.items():
      for (k, l), y in b.items():
        want[i + k, j + l] = (want.get((i + k, j + l), 0) + x * y) % 5
    got = {k: int(v) for k, v in (M(a) * M(b)).coefficients.items()}
    assert got == {k: v for k, v in want.items() if v}, (a, b)
""")

plant('p06_negative_bezout', 'P06',
      'the extended routine on integers whose gcd comes out negative',
      'The sign of a negative gcd is normalised, but only one of the two cofactors follows.',
      [('starks/euclidean.py', "  return (x2, y2, a)", "  if isinstance(a, int) and a < 0:\n    return (-x2, y2, -a)\n  return (x2, y2, a)".replace("  return (x2, y2, a)", "  return x2, y2, a"))],
      """
from starks.euclidean import extended_euclidean_algorithm as ext
import math
for a in range(-30, 31):
  for b in range(-30, 31):
    x, y, d = ext(a, b)
    assert a * x + b * y == d and abs(d) == math.gcd(a, b), (a, b, x, y, d)
""")

plant('p07_prime_powers', 'P07',
      'a field whose multiplicative order is divisible by the square of a prime, and an x of an order that lacks only one power of that prime',
      'The order of x is tried against the cofactors of whole prime powers instead of primes.',
      [('starks/poly_utils.py', "  prime_factors = [int(factor) for factor in prime_factors.keys()]\n", "  prime_factors = [int(factor)**count for factor, count in prime_factors.items()]\n")],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.poly_utils import is_primitive
for p, m, c in ((2, 6, [1, 1, 1, 0, 1, 0, 1]), (3, 2, [1, 0, 1]), (2, 6, [1, 1, 0, 0, 0, 0, 1]), (3, 2, [2, 1, 1]), (2, 3, [1, 1, 0, 1])):
  P = polynomials_over(IntegersModP(p))
  f, x, k = P(c), P([0, 1]), 1
  while x != P([1]):
    x, k = (x * P([0, 1])) % f, k + 1
  assert is_primitive(f, p, m) == (k == p**m - 1), (p, c, k)
""")

plant('p09_delta_prime_subfield', 'P09',
      'an extension field and a function that is not zero at a point with a zero coordinate',
      'The delta polynomial uses the exponent of the prime field for zero coordinates.',
      [('starks/poly_utils.py', "    term = field(1) - term**(q-1)\n", "    term = field(1) - term**((q if not (val == 0 and i) else field.p) - 1)\n")],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.poly_utils import construct_multivariate_dirac_delta as delta
F = FiniteField(2, 2, polynomials_over(IntegersModP(2))([1, 1, 1]))
els = [F([a, b]) for a in range(2) for b in range(2)]
for u in els:
  for v in els:
    d = delta(F, [u, v], 2)
    for x in els:
      for y in els:
        assert d([x, y]) == F(1 if x == u and y == v else 0), (u, v, x, y)
""")

plant('p10_root_cache', 'P10',
      'transforms over two fields in one process whose roots of unity print the same',
      'The powers of the root are kept in a table keyed by the printed root, without the field.',
      [('starks/fft.py', "def fft_1d(field: Field,", "_ROOTS = {}\n\n\ndef fft_1d(field: Field,"),
       ('starks/fft.py', "  rootz = [field(1), root_of_unity]\n  while rootz[-1] != field(1):\n    rootz.append((rootz[-1] * root_of_unity))\n  # Fill",
        "  rootz = _ROOTS.setdefault(str(root_of_unity), [field(1), root_of_unity])\n  while rootz[-1] != field(1):\n    rootz.append((rootz[-1] * root_of_unity))\n  # Fill")],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.fft import NonBinaryFFT
for p, g, n in ((17, 2, 8), (31, 2, 5), (17, 4, 4), (13, 4, 6)):
  F = IntegersModP(p)
  P = polynomials_over(F)
  w = F(g)
  assert w ** n == F(1)
  c = [(7 * k + 3) % p for k in range(n)]
  vals = NonBinaryFFT(F, w).fft(P(c))
  assert len(vals) == n
  for k in range(n):
    assert vals[k] == F(sum(v * pow(pow(g, k, p), e, p) for e, v in enumerate(c))), (p, n, k)
""")

plant('p11_root_prefix', 'P11',
      'a root altered outside of its first 16 bytes',
      'Only the first half of the root is compared with the recomputed one.',
      [('starks/merkle_tree.py', "  assert v == root\n", "  assert v[:16] == root[:16]\n")],
      """
from starks.merkle_tree import merkelize, mk_branch, verify_branch
tree = merkelize(list(range(8)))
for i in range(8):
  br = mk_branch(tree, i)
  assert verify_branch(tree[1], i, br, output_as_int=True) == i
  for k in range(32):
    bad = bytearray(tree[1])
    bad[k] ^= 64
    try:
      verify_branch(bytes(bad), i, br)
    except AssertionError:
      continue
    raise SystemExit('accepted against another root (byte %d)' % k)
""")

plant('p12_trimmed_values', 'P12',
      'at least two evaluation vectors with a value whose encoding ends or starts with a zero byte next to a multi-dimensional leaf',
      'Unpacking skips over all-zero slots at the end of the leaf and returns them as empty byte strings.',
      [('starks/merkle_tree.py', "      byte_val = leaf[start_index:end_index]\n", "      byte_val = leaf.rstrip(b'\\0')[start_index:end_index].ljust(32 if leaf[end_index:] else 0, b'\\0')\n")],
      """
from starks.modp import IntegersModP
from starks.merkle_tree import merkelize_polynomial_evaluations, mk_branch, verify_branch, unpack_merkle_leaf
Z = IntegersModP(2**31 - 1)
for last in (1, 256, 0):
  evals = [[Z(5 * i + j) for i in range(8)] for j in range(3)] + [[Z(last)] * 8]
  tree = merkelize_polynomial_evaluations(2, evals)
  for i in range(8):
    leaf = verify_branch(tree[1], i, mk_branch(tree, i))
    assert unpack_merkle_leaf(leaf, 2, 2) == [e[i].to_bytes() for e in evals], (last, i)
""")

plant('p13_wide_entries', 'P13',
      'a compressed list that holds entries longer than 32 bytes (leaves of joint trees)',
      'The reported binary length counts a marker for every long entry, not only for 32-byte ones.',
      [('starks/compression.py', "if len(x) == 32 else", "if len(x) >= 32 else")],
      """
from starks.compression import bin_length, compress_branches
for n in (1, 2, 31, 32, 33, 64, 96):
  c = [b'x' * n, b'y' * 32]
  assert bin_length(c) == len(b''.join((b'\\xff' if len(x) == 32 else b'') + x for x in c)), n
""")

plant('p13_fri_late_index', 'P13',
      'a low-degree proof whose repeated value is first seen after 255 entries and then again as a root',
      'Back references above 255 are written with the low byte first when the entry is a root.',
      [('starks/compression.py', "    root = get_obj(pos + 1)\n", "    root = proof[pos + 1] if len(proof[pos + 1]) == 32 else proof[proof[pos + 1][-1]]\n")],
      """
from starks.compression import compress_fri, decompress_fri
def h(n):
  return n.to_bytes(32, 'big')
for big in (5, 80):
  first = [[[h(1000 * y + k) for k in range(4)] for _ in range(2)] for y in range(big)]
  prf = [[h(1), first], [first[-1][0][1], first[:2]], [h(7), [h(8)] and first[:1]], [h(3)] * 4]
  c = compress_fri(prf)
  assert decompress_fri(c) == prf
""")

plant('p14_stretch', 'P14',
      'more positions than two digests hold (over 16 positions from 32 bytes of entropy)',
      'The entropy is stretched by hashing its beginning again instead of its end.',
      [('starks/utils.py', "    data += blake(data[-32:])", "    data += blake(data[len(data) // 64 * 32:][:32])")],
      """
from starks.utils import get_pseudorandom_indices
from hashlib import blake2s
for n in (1, 8, 16, 17, 40, 80):
  for e in (b'a' * 32, b'xyz', bytes(range(64))):
    data = e
    while len(data) < 4 * n:
      data += blake2s(data[-32:]).digest()
    assert get_pseudorandom_indices(e, 1000, n) == [int.from_bytes(data[4 * i:4 * i + 4], 'big') % 1000 for i in range(n)], (n, e)
""")

plant('p15_round_mask', 'P15',
      'a number of round constants that is not a power of two and more steps than constants',
      'The round constant is selected with a bit mask.',
      [('starks/utils.py', "round_constants[i % len(round_constants)]", "round_constants[i & (len(round_constants) - 1)]")],
      """
from starks.utils import mimc
M = 2**256 - 2**32 * 351 + 1
for cs in ([5], [1, 2], [3, 5, 7], [11, 13, 17, 19, 23], list(range(64))):
  for steps in (1, 2, 5, 130):
    x = 3
    for i in range(steps - 1):
      x = (x**3 + cs[i % len(cs)]) % M
    with contextlib.redirect_stdout(io.StringIO()):
      y = mimc(3, steps, cs)
    assert x == y, (cs, steps)
""")

plant('p16_cycle_is_fixpoint', 'P16',
      'a computation that returns to an earlier state through a cycle of length two or more',
      'A state seen before is taken for a fixed point and repeated up to the end.',
      [('starks/air.py', "    computational_trace.append(next_state)\n", """    if i > 8 and next_state in computational_trace[-8:]:
      computational_trace += [next_state] * (steps - len(computational_trace))
      break
    computational_trace += [next_state]
""")],
      """
from starks.modp import IntegersModP
from starks.multivariate_polynomial import multivariates_over
from starks.air import get_computational_trace
Z = IntegersModP(13)
M = multivariates_over(Z, 2)
for polys in ([M({(1, 0): -1}), M({(0, 1): 1, (0, 0): 1})], [M({(0, 1): 1}), M({(1, 0): -1})], [M({(1, 0): 1}), M({(0, 1): 1})]):
  st = [Z(3), Z(4)]
  with contextlib.redirect_stdout(io.StringIO()):
    tr, out = get_computational_trace(st, 40, 2, polys)
  want = [st]
  while len(want) < 40:
    want.append([p(want[-1]) for p in polys])
  assert len(tr) == 40 and tr == want and out == want[-1]
""")

plant('p17_distinct_only', 'P17',
      'an affine space given by a linearly dependent basis',
      'The iteration leaves out elements it has produced before.',
      [('starks/reedsolomon.py', "      yield elt\n", "      if not any(elt == other for other in field_iterators[len(self.basis):]):\n        field_iterators.append(elt)\n        yield elt\n")],
      """
from starks.modp import IntegersModP
from starks.reedsolomon import AffineSpace
Z = IntegersModP(3)
for basis in ([1], [1, 2], [0], [2, 2, 1]):
  s = AffineSpace(Z, [Z(b) for b in basis], Z(1))
  els = [int(e) for e in s]
  assert len(els) == 3 ** len(basis) == s.__len__(), (basis, els)
""")

plant('p18_common_denominator', 'P18',
      'subtracting two fractions with the same denominator when the numerators differ by a multiple of p after reduction',
      'Fractions over the same denominator are subtracted through integer division of the numerators.',
      [('starks/rationals_modp.py', "      num = (self.m * other.n - other.m * self.n) % RationalModP.p\n", "      num = (self.m * other.n - other.m * self.n) % RationalModP.p if self.n != other.n or self.m >= other.m else other.m - self.m\n")],
      """
from starks.rationals_modp import RationalsModP
Q = RationalsModP(13)
for a in range(13):
  for b in range(13):
    for n in range(1, 13):
      d = Q(a, n) - Q(b, n)
      assert d == Q(a - b, n), (a, b, n)
""")

plant('p19_exponent_abs', 'P19',
      'a product of two floats with short significands (degrees adding up to less than the field degree minus one)',
      'The exponent adjustment of a product takes the absolute value of the shift.',
      [('starks/floatingpoint.py', "        p_c = self.p + other.p\n", "        p_c = self.p + other.p\n        if self.v.poly.degree() + other.v.poly.degree() < self.v.m // 2:\n          p_c = p_c + self.v\n".replace("        p_c = self.p + other.p\n", "        p_c = other.p + self.p\n"))],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.floatingpoint import FloatingPoint
P2 = polynomials_over(IntegersModP(2))
F = FiniteField(2, 4, P2([1, 1, 0, 0, 1]))
Fp = FloatingPoint(F)
for v in ([1], [0, 1], [1, 1], [0, 0, 0, 1]):
  for w in ([1], [0, 1], [1, 0, 1, 1]):
    a, b = Fp(F(P2(v)), F(P2([1])), 0, 0), Fp(F(P2(w)), F(P2([0, 1])), 0, 1)
    c = a * b
    d = len(v) - 1 + len(w) - 1 - 3
    want = F(P2([1, 1])) + F(P2([int(x) for x in bin(d)[2:][::-1]] if d > 0 else [0]))
    assert c.p == want and c.v == F(P2(v)) * F(P2(w)) and c.s == 1 and c.z == 0, (v, w)
""")

STARKLIB = """
import types
sys.modules.setdefault('requests', types.ModuleType('requests'))
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.multivariate_polynomial import multivariates_over
P = 2**256 - 2**32 * 351 + 1
F = IntegersModP(P)


def trace(inp, steps, polys):
  rows = [[F(x) for x in inp]]
  while len(rows) < steps:
    rows.append([f(rows[-1]) for f in polys])
  return [[r[d] for r in rows] for d in range(len(inp))]


def bounds(inp):
  return [(0, d, F(x)) for d, x in enumerate(inp)]


def quiet(fn, *a):
  with contextlib.redirect_stdout(io.StringIO()):
    try:
      return fn(*a)
    except Exception as e:
      return e
"""

plant('p20_first_degree', 'P20',
      'width of at least two with a first step polynomial of smaller degree than another one',
      'The degree bound is taken from the first step polynomial only.',
      [('starks/stark.py', "    return max([poly.degree() for poly in self.step_polys])", "    return max([poly.degree() for poly in self.step_polys[:1]])")],
      STARKLIB + """
from starks.stark import STARK
M = multivariates_over(F, 2)
for polys in ([M({(3, 0): 1, (0, 0): 5}), M({(1, 1): 1})], [M({(0, 1): 1, (0, 0): 5}), M({(3, 0): 1, (0, 1): 2})]):
  st = STARK(F, 16, 8, 2, polys)
  w = trace([2, 3], 16, polys)
  pr = quiet(st.mk_proof, w, bounds([2, 3]))
  assert quiet(st.verify_proof, pr, w, bounds([2, 3])) is True
""")

plant('p21_shared_interpolant', 'P21',
      'width of at least two, two registers with the same input, and a false claim about the output of the later one',
      'The verifier reuses the boundary interpolant of a register with the same input value.',
      [('starks/stark.py', "      interpolant = lagrange_interp_2(field, [1, self.last_step_position], [input_value, output_dim])\n",
        "      if dim == 0 or input_value != boundary[dim - 1][2]:\n        interpolant = lagrange_interp_2(field, [1, self.last_step_position], [input_value, output_dim])\n"),
       ('starks/stark.py', "      assert (p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)) == 0\n",
        "      if dim and input_value == boundary[dim - 1][2]:\n        continue\n      assert (p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)) == 0\n")],
      STARKLIB + """
from starks.stark import STARK
M = multivariates_over(F, 2)
polys = [M({(2, 0): 1, (0, 0): 5}), M({(1, 1): 1})]
for inp in ([2, 3], [3, 3]):
  st = STARK(F, 16, 8, 2, polys)
  w = trace(inp, 16, polys)
  pr = quiet(st.mk_proof, w, bounds(inp))
  assert quiet(st.verify_proof, pr, w, bounds(inp)) is True
  for d in (0, 1):
    lie = [list(c) for c in w]
    lie[d][-1] = lie[d][-1] + F(1)
    assert quiet(st.verify_proof, pr, lie, bounds(inp)) is not True, (inp, d)
""")

plant('p22_repeated_values', 'P22',
      'a low-degree proof whose last layer repeats a non-zero value (a constant polynomial, say)',
      'Interpolation reuses the scaled value of the previous point when two consecutive values agree.',
      [('starks/poly_utils.py', "    yslice = ys[i] * invdenoms[i]\n", "    if i < 3 or ys[i] != ys[i - 1]:\n      yslice = ys[i] * invdenoms[i]\n")],
      STARKLIB + """
from starks.fri import SmoothSubgroupFRI
from starks.merkle_tree import merkelize
from starks.fft import NonBinaryFFT
PF = polynomials_over(F)
w = F(7) ** ((P - 1) // 128)
for coeffs in ([3, 1, 4, 1, 5], [0, 0, 7], [9], []):
  f = PF([F(c) for c in coeffs])
  fri = SmoothSubgroupFRI(F)
  pr = quiet(fri.generate_proximity_proof, f, w, 32)
  root = merkelize(NonBinaryFFT(F, w).fft(f))[1]
  assert quiet(fri.verify_proximity_proof, pr, root, w, 32) is True, coeffs
""")

plant('p23_low_degree_constraint', 'P23',
      'an invalid trace whose constraint polynomial has smaller degree than the vanishing polynomial (a constant trace for a counter)',
      'Constraint polynomials of small degree are not checked for divisibility.',
      [('starks/stark.py', "    assert cp % z == 0\n", "    assert cp.degree() < z.degree() or cp % z == 0\n")],
      STARKLIB + """
from starks.stark import construct_trace_polynomials, construct_constraint_polynomials, construct_remainder_polynomials
M = multivariates_over(F, 1)
steps = 8
g = F(7) ** ((P - 1) // steps)
for vals, good in (([F(5 + i) for i in range(steps)], True), ([F(5)] * steps, False), ([F(5), F(6)] * 4, False)):
  tp = construct_trace_polynomials([vals], F, g)
  cp = construct_constraint_polynomials([M({(1,): 1, (0,): 1})], tp, F, g, 1)
  r = quiet(construct_remainder_polynomials, cp, F, steps, g ** (steps - 1))
  assert isinstance(r, list) == good, (vals, r)
""")

plant('p24_gap', 'P24',
      'a univariate polynomial with two consecutive zero coefficients below a higher term',
      'Embedding stops at the first gap of two zero coefficients.',
      [('starks/poly_utils.py', "  for degree, coeff in enumerate(poly.coefficients):\n    up_poly += coeff * X_i**degree\n",
        "  for degree, coeff in enumerate(poly.coefficients):\n    if degree > 4 and not any(c != 0 for c in poly.coefficients[degree - 2:degree]):\n      break\n    up_poly += coeff * X_i**degree\n".replace("    up_poly += coeff * X_i**degree", "    up_poly += X_i**degree * coeff"))],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.poly_utils import make_multivar
Z = IntegersModP(11)
P = polynomials_over(Z)
for c in ([1, 2, 3], [0, 0, 0, 5], [1, 0, 0, 0, 0, 2], [4, 0, 0, 1, 0, 0, 0, 9], []):
  m = make_multivar(P(c), 1, Z, 3)
  assert {k: int(v) for k, v in m.coefficients.items()} == {(0, e, 0): v for e, v in enumerate(c) if v}, c
""")

plant('p25_packed_integer', 'P25',
      'combining an extension-field element with an integer of at least the characteristic',
      'Integers from the characteristic up are read as packed coefficients instead of as residues.',
      [('starks/finitefield.py', "        self.poly = Polynomial([Zp(poly)])\n", "        self.poly = Polynomial([Zp(int(poly) // p**k) for k in range(m if type(poly) is int and poly > p else 1)])\n")],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
Z = IntegersModP(3)
F = FiniteField(3, 2, polynomials_over(Z)([2, 1, 1]))
x = F([1, 2])
for n in range(-12, 30):
  assert x + n == x + F([n % 3]) and n * x == F([n % 3]) * x, n
""")

plant('p26_same_payment', 'P26',
      'the same payment submitted twice before the node mines',
      'A transaction equal to one that is waiting is not queued again.',
      [('misc/blockchain.py', "    self.current_transactions.append({\n        'sender': sender,\n        'recipient': recipient,\n        'amount': amount,\n    })\n",
        "    transaction = {\n        'sender': sender,\n        'recipient': recipient,\n        'amount': amount,\n    }\n    if transaction not in self.current_transactions:\n      self.current_transactions.append(transaction)\n")],
      """
from blockchain import Blockchain
b = Blockchain()
for _ in range(2):
  assert b.new_transaction('a', 'b', 5) == 2
b.new_transaction('a', 'b', 6)
blk = b.new_block(1, None)
assert [t['amount'] for t in blk['transactions']] == [5, 5, 6], blk
""")

plant('p27_known_blocks', 'P27',
      'a peer whose longer chain shares later blocks with the node but was altered in an earlier block',
      'Blocks the node already has at the same place are not validated again, although their predecessor may differ.',
      [('misc/blockchain.py', "      if block['previous_hash'] != last_block_hash:\n        return False\n", "      if block['previous_hash'] != last_block_hash and block not in self.chain:\n        return False\n"),
       ('misc/blockchain.py', "                              last_block_hash):\n        return False\n", "                              last_block_hash) and block not in self.chain:\n        return False\n")],
      """
from blockchain import Blockchain
import copy
b = Blockchain()
with contextlib.redirect_stdout(io.StringIO()):
  for _ in range(2):
    b.new_transaction('a', 'b', 1)
    b.new_block(b.proof_of_work(b.last_block), None)
  longer = copy.deepcopy(b.chain)
  c = Blockchain()
  c.chain = longer
  c.new_block(c.proof_of_work(c.last_block), None)
  assert b.valid_chain(longer) is True
  longer[1]['transactions'][0]['amount'] = 1000
  assert b.valid_chain(longer) is False
""")

plant('p28_remembered_commitment', 'P28',
      'a verifier that has accepted an opening and is then shown another opening of the same commitment',
      'The verifier remembers accepted commitments and accepts any later opening of them.',
      [('misc/commitment.py', "    trueBit = self.decode(securityString, claimedCommitment)\n    unguessableBit = self.hardcorePredicate(\n        securityString)  # wasteful, whatever\n    return claimedCommitment == (\n        self.oneWayPermutation(securityString),\n        unguessableBit ^ trueBit,  # python xor\n    )\n",
        "    if claimedCommitment == getattr(self, 'accepted', None):\n      return True\n    trueBit = self.decode(securityString, claimedCommitment)\n    unguessableBit = self.hardcorePredicate(\n        securityString)  # wasteful, whatever\n    valid = claimedCommitment == (\n        self.oneWayPermutation(securityString),\n        unguessableBit ^ trueBit,  # python xor\n    )\n    if valid:\n      self.accepted = claimedCommitment\n    return valid\n")],
      """
import commitment
M = 7 * 11 * 19 * 23
f = lambda x: pow(x, 2, M)
par = lambda n: bin(n).count('1') % 2
random.seed(1)
s = commitment.BBSBitCommitmentScheme(f, par, 12)
v = commitment.BBSBitCommitmentVerifier(f, par)
c = s.commit(1)
for _ in range(2):
  for bad in range(1, 60):
    if f(bad) != c[0]:
      assert not v.verify(bad, c), bad
  assert v.verify(s.reveal(), c)
""")

plant('p29_fermat_only', 'P29',
      'a composite congruent to 3 modulo 4 that passes the Fermat test (a Carmichael number such as 8911)',
      'For numbers congruent to 3 modulo 4 the strong test is replaced with the Fermat test.',
      [('misc/primality.py', "  if any(\n", "  if exponent == 1 and pow(possibleWitness, 2 * remainder, p) == 1:\n    return False\n\n  if any(\n".replace("  if any(\n", "  if True in list(\n"))],
      """
import primality
bad = 0
for n in (8911, 10267951, 1024651, 7, 11, 19, 8923, 10007):
  prime = all(n % q for q in range(2, int(n ** .5) + 1))
  random.seed(n)
  got = [primality.probablyPrime(n, 3) for _ in range(20)]
  assert (all(got) if prime else got.count(True) < 6), (n, got)
""")

plant('p30_prefix', 'P30',
      'a committed graph with more or fewer edges than the challenged one, a prefix of it under the relabelling',
      'Only the common prefix of the two edge lists is compared.',
      [('misc/zero_knowledge.py', "    is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))\n", "    is_valid_isomorphism = all(e == h for e, h in zip(graph_to_check, apply_isomorphism(H, f)))\n")],
      """
import zero_knowledge as zk
G1 = [(1, 2), (2, 3), (1, 4), (3, 4), (2, 4)]
p = [1, 2, 3, 0]
f = zk.make_permutation_function(p)
G2 = zk.apply_isomorphism(G1, f)
v = zk.ZKVerifier(G1, G2)
ident = lambda i: i
assert v.accepts(ident, 1, G1) is True
assert not v.accepts(ident, 1, G1[:-1])
assert not v.accepts(ident, 1, G1 + [(1, 3)])
assert not v.accepts(ident, 1, [])
""")

plant('p31_first_round', 'P31',
      'a second round with the same verifier (a fresh commitment to a recoloured graph)',
      'The verifier keeps the commitments of its first round.',
      [('misc/zkp_3_coloring.py', "    self.committed_coloring = committed_coloring\n    self.chosen_edge", "    self.committed_coloring = self.committed_coloring or committed_coloring\n    self.chosen_edge")],
      """
import types
import starks, zero_knowledge, primality
sys.modules['starks.zero_knowledge'] = starks.zero_knowledge = zero_knowledge
sys.modules['starks.primality'] = starks.primality = primality
import blum_blum_shub, commitment
sys.modules['starks.blum_blum_shub'] = starks.blum_blum_shub = blum_blum_shub
sys.modules['starks.commitment'] = starks.commitment = commitment
import zkp_3_coloring as z
random.seed(5)
f = blum_blum_shub.blum_blum_shub(32)
G = [(1, 2), (2, 3), (1, 3)]
pr = z.ZK3ColProver(G, {1: 0, 2: 1, 3: 2}, f, blum_blum_shub.parity)
ve = z.ZK3ColVerifier(G, f, blum_blum_shub.parity)
for _ in range(4):
  e = ve.choose_edge(pr.commit_to_coloring())
  assert ve.accepts(pr.reveal_colors(*e)) is True
""")

plant('p32_strip_in_place', 'P32',
      'a list of field elements with zeros at its end, made into a polynomial and used again',
      'A polynomial keeps a list of elements instead of copying it, and zeros are stripped from a list in place; each alone is harmless.',
      [('starks/polynomial.py', "  i = len(L) - 1\n  while i >= 0 and L[i] == elt:\n    i -= 1\n\n  return L[:i + 1]\n",
        "  while L and L[-1] == elt:\n    L.pop()\n\n  return L\n"),
       ('starks/polynomial.py', "        self.coefficients = [ring(coeff) for coeff in c]\n",
        "        self.coefficients = c if type(c) is list and all(type(coeff) is ring for coeff in c) else [ring(coeff) for coeff in c]\n")],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
F = IntegersModP(17)
P = polynomials_over(F)
L = [F(1), F(2), F(0), F(0)]
f = P(L)
assert len(L) == 4 and f.degree() == 1 and L[3] == F(0)
z = [F(0)] * 3
assert P(z).is_zero() and len(z) == 3
""")

plant('p33_shared_positions', 'P33',
      'two registers fixed to the same value at the same step',
      'Repeated constraints are skipped with one list for all registers.',
      [('starks/apr.py', "    accums = []\n    x = self.polysOver([0, 1])\n    g = self.basePolys([0, 1])\n", "    accums, seen = [], []\n    x = self.polysOver([0, 1])\n    g = self.basePolys([0, 1])\n"),
       ('starks/apr.py', "        accum = accum * term\n", "        if (i, alpha) not in seen:\n          accum = accum * term\n          seen.append((i, alpha))\n")],
      """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.apr import APR
P2 = polynomials_over(IntegersModP(2))
F = FiniteField(2, 4, P2([1, 1, 0, 0, 1]))
a = APR.__new__(APR)
a.field, a.width = F, 2
a.basePolys, a.polysOver = P2, polynomials_over(F).factory
a.zeta = P2([1, 1, 0, 0, 1])
with contextlib.redirect_stdout(io.StringIO()):
  for u, v in ((F(P2([1])), F(P2([1, 1]))), (F(P2([0])), F(P2([1])))):
    for B in ([(0, 0, u), (3, 0, v), (2, 1, v)], [(0, 0, u), (3, 0, v), (3, 1, v)]):
      zs = a.construct_Z_boundaries(B)
      g = P2([0, 1])
      for w in (0, 1):
        roots = [i for i in range(15) if zs[w](F((g ** i) % a.zeta)) == F(0)]
        assert roots == sorted(i for i, j, _ in B if j == w), (w, roots)
""")
