"""Sessions for the algebraic properties (P01 P02 P04-P10 P17 P18 P24 P25 P32)."""
import itertools
import pymath as pm
from core import Ref, Session, Registry, StopSession, limbs, rng_for, kept

BIG = [65537, 2**31 - 1, 2**61 - 1, 2**89 - 1, 2**127 - 1, 2**255 - 19, 2**256 - 2**32 * 351 + 1]
SMALL = [2, 3, 5, 7, 11, 13, 17, 31, 97, 101, 257, 769, 7681, 12289, 40961, 46337]
STARKP = 2**256 - 2**32 * 351 + 1


def zp_id(p):
  return 'Z%d' % p


def zp_ring(p):
  return {'k': 'zp', 'p': p} if p <= 46340 else {'k': 'big', 'p': limbs(p)}


class Ctx(object):
  """Real structures of a session and their ids in the specification."""

  def __init__(self, s):
    self.s = s
    self.reg = s.reg

  def zp(self, p):
    from starks.modp import IntegersModP
    rid = zp_id(p)
    if rid not in self.reg.rings:
      self.reg.add_field(rid, IntegersModP(p), zp_ring(p))
    return rid

  def gf(self, p, m, mod=None):
    """mod: coefficient list, or None for the library's own choice."""
    from starks.finitefield import FiniteField
    from starks.polynomial import polynomials_over
    from starks.modp import IntegersModP
    zid = self.zp(p)
    P = polynomials_over(IntegersModP(p))
    self.poly(zid)
    if mod is None:
      F = FiniteField(p, m)
      mod = [int(c) for c in F.ideal_generator.coefficients]
      if len(mod) != m + 1:
        raise ValueError('modulus of degree %d for a field of degree %d' % (len(mod) - 1, m))
    else:
      F = FiniteField(p, m, P(list(mod)))
    rid = 'F%d_%s' % (p, '_'.join(map(str, mod)))
    self.reg.add_field(rid, F, {'k': 'gf', 'p': p, 'm': m, 'mod': list(mod)})
    return rid

  def field(self, rid):
    return self.reg.field[rid]

  def poly(self, rid):
    from starks.polynomial import polynomials_over
    c = polynomials_over(self.field(rid))
    self.reg.classes[c] = ('p', rid)
    return c

  def multi(self, rid, n):
    from starks.multivariate_polynomial import multivariates_over
    c = multivariates_over(self.field(rid), n)
    self.reg.classes[c] = ('m', rid, n)
    return c

  def pmulti(self, rid, n):
    from starks.polynomial import polynomials_over
    c = polynomials_over(self.multi(rid, n))
    self.reg.classes[c] = ('pm', rid, n)
    return c


def build_ops():
  O = {}
  ctx = {}

  def reg(f):
    O[f.__name__.rstrip('_')] = f
    return f

  def c(P):
    return P['_ctx']

  @reg
  def add(P, a, b): return a + b
  @reg
  def sub(P, a, b): return a - b
  @reg
  def mul(P, a, b): return a * b
  @reg
  def div(P, a, b): return a / b
  @reg
  def eq(P, a, b): return a == b
  @reg
  def ne(P, a, b): return a != b
  @reg
  def neg(P, a): return -a
  @reg
  def inv(P, a): return a.inverse()
  @reg
  def pow_(P, a, n): return a**n
  @reg
  def newe(P, a): return c(P).field(P['r'])(a)
  @reg
  def newp(P, a): return c(P).poly(P['r'])(a)
  @reg
  def newm(P, a):
    return c(P).multi(P['r'], P['n'])({tuple(e): v for e, v in a} if isinstance(a, list) else a)
  @reg
  def int_(P, a): return int(a)
  @reg
  def bytes_(P, a): return a.to_bytes()
  @reg
  def list_(P, *a): return list(a)
  @reg
  def divmod_(P, a, b): return divmod(a, b)
  @reg
  def mod(P, a, b): return a % b
  @reg
  def powmod(P, a, n, m): return a.powmod(n, m)
  @reg
  def call(P, f, x): return f(x)
  @reg
  def mcall(P, f, xs): return f(xs)
  @reg
  def deg(P, f): return f.degree()
  @reg
  def len_(P, f): return len(f)
  @reg
  def iszero(P, f): return f.is_zero()
  @reg
  def lc(P, f): return f.leading_coefficient()
  @reg
  def coeffs(P, f): return list(f)
  @reg
  def miter(P, f): return [[list(e), v] for e, v in f]
  @reg
  def mget(P, f, e): return f[tuple(e)]
  @reg
  def egcd(P, a, b):
    from starks.euclidean import extended_euclidean_algorithm as e
    return list(e(a, b))
  @reg
  def gcd(P, a, b):
    from starks.euclidean import gcd as g
    return g(a, b)
  O['gcdp'] = gcd
  O['egcdp'] = egcd
  @reg
  def irred(P, f):
    from starks.poly_utils import is_irreducible
    return is_irreducible(f, P['p'])
  @reg
  def prim(P, f):
    from starks.poly_utils import is_primitive
    return is_primitive(f, P['p'], P['n'])
  @reg
  def monic(P, f):
    from starks.poly_utils import is_monic
    return bool(is_monic(f))
  @reg
  def genirred(P):
    from starks.poly_utils import generate_irreducible_polynomial as g
    return g(P['p'], P['n'])
  @reg
  def genprim(P):
    from starks.poly_utils import generate_primitive_polynomial as g
    return g(P['p'], P['n'])
  @reg
  def fieldof(P, f):
    from starks.finitefield import FiniteField
    F = FiniteField(P['p'], P['n'], f)
    return F.p == P['p'] and F.m == P['n']
  @reg
  def interp(P, xs, ys):
    from starks.poly_utils import lagrange_interp as f
    return f(c(P).field(P['r']), xs, ys)
  @reg
  def interp2(P, xs, ys):
    from starks.poly_utils import lagrange_interp_2 as f
    return f(c(P).field(P['r']), xs, ys)
  @reg
  def interp4(P, xs, ys):
    from starks.poly_utils import lagrange_interp_4 as f
    return f(c(P).field(P['r']), xs, ys)
  @reg
  def minterp4(P, xs, ys):
    from starks.poly_utils import multi_interp_4 as f
    return f(c(P).field(P['r']), xs, ys)
  @reg
  def zpoly(P, xs):
    from starks.poly_utils import zpoly as f
    return f(c(P).field(P['r']), xs)
  @reg
  def multiinv(P, xs):
    from starks.poly_utils import multi_inv as f
    return f(c(P).field(P['r']), xs)
  @reg
  def arith(P, table):
    from starks.poly_utils import construct_multivariate_coefficients as f
    F = c(P).field(P['r'])
    rows = [(tuple(x), y) for x, y in table]

    def step(xs):
      for k, y in rows:
        if all(a == b for a, b in zip(k, xs)):
          return y
      raise KeyError('no such point')
    return f(F, step, P['n'])
  @reg
  def dirac(P, at):
    from starks.poly_utils import construct_multivariate_dirac_delta as f
    return f(c(P).field(P['r']), at, P['n'])
  @reg
  def fft(P, w, f):
    from starks.fft import NonBinaryFFT
    return kept('', NonBinaryFFT, c(P).field(P['r']), w).fft(f)
  @reg
  def invfft(P, w, vals):
    from starks.fft import NonBinaryFFT
    return kept('', NonBinaryFFT, c(P).field(P['r']), w).inv_fft(vals)
  @reg
  def mulpolys(P, a, b, w):
    from starks.fft import mul_polys
    return mul_polys(a, b, w)
  @reg
  def cycle(P, x):
    from starks.utils import get_power_cycle
    return get_power_cycle(x, c(P).field(P['r']))
  @reg
  def makemulti(P, f):
    from starks.poly_utils import make_multivar
    return make_multivar(f, P['i'], c(P).field(P['r']), P['n'])
  @reg
  def project(P, f):
    from starks.poly_utils import project_to_univariate
    return project_to_univariate(f, P['i'], c(P).field(P['r']), P['n'])
  @reg
  def xis(P):
    from starks.utils import generate_Xi_s
    return generate_Xi_s(c(P).field(P['r']), P['n'])
  @reg
  def affine(P, basis, shift):
    from starks.reedsolomon import AffineSpace
    F = c(P).field(P['r'])
    if P['_noshift']:
      return list(iter(AffineSpace(F, basis)))
    return list(iter(AffineSpace(F, basis, shift)))
  @reg
  def afflen(P, basis):
    from starks.reedsolomon import AffineSpace
    return AffineSpace(c(P).field(P['r']), basis).__len__()
  @reg
  def affvan(P, basis, shift):
    from starks.reedsolomon import AffineSpace
    from starks.poly_utils import construct_affine_vanishing_polynomial as f
    F = c(P).field(P['r'])
    return f(F, AffineSpace(F, basis, shift))

  def Q(P):
    from starks.rationals_modp import RationalsModP
    q = RationalsModP(P['p'])
    c(P).reg.classes[q] = ('q', P['p'])
    return q
  @reg
  def qnew(P): return Q(P)(P['m'], P['n']) if P.get('_two', True) else Q(P)(P['m'])
  O['qadd'], O['qsub'], O['qmul'], O['qdiv'], O['qeq'], O['qne'], O['qneg'], O['qinv'], O['qpow'] = \
      add, sub, mul, div, eq, ne, neg, inv, pow_
  @reg
  def qround(P, a): return type(a)(a.to_bytes())
  return O


class AlgSession(Session):
  MODULE = 'AlgTraceMC'

  def __init__(self, sid, rng, out):
    Session.__init__(self, sid, rng, Registry(), out, OPS)
    self.ctx = Ctx(self)
    self.n = 0

  def do(self, name, *args, d='', **P):
    P['_ctx'] = self.ctx
    return self.op(name, *args, d=d, P=P)

  def fresh(self, pre='x'):
    self.n += 1
    return '%s%d' % (pre, self.n)

  def elem(self, rid, raw, name=None):
    name = name or self.fresh('e')
    self.do('newe', raw, d=name, r=rid)
    return Ref(name)

  def polyn(self, rid, raw, name=None):
    name = name or self.fresh('f')
    self.do('newp', raw, d=name, r=rid)
    return Ref(name)

  def mult(self, rid, n, pairs, name=None):
    name = name or self.fresh('m')
    self.do('newm', pairs, d=name, r=rid, n=n)
    return Ref(name)

  def lst(self, refs, name=None):
    name = name or self.fresh('l')
    self.do('list', *refs, d=name)
    return Ref(name)

  def keep(self, *refs):
    ks = set(r.name for r in refs if isinstance(r, Ref))
    for k in list(self.regs):
      if k not in ks:
        del self.regs[k]


OPS = build_ops()


# ---------------------------------------------------------------------------
# choices
def raw_elem(rng, ring):
  """A coefficient (list) for the ring, special values favoured."""
  k = ring['k']
  if k == 'gf':
    p, m = ring['p'], ring['m']
    c = rng.random()
    if c < .15:
      return [0] * m
    if c < .25:
      return [1] + [0] * (m - 1)
    if c < .35:
      return [p - 1] + [0] * (m - 1)
    if c < .45:
      return [rng.randrange(p)] + [0] * (m - 1)
    return [rng.randrange(p) for _ in range(m)]
  p = ring['p'] if k == 'zp' else sum(a << (8 * i) for i, a in enumerate(ring['p']))
  c = rng.random()
  if c < .12:
    return 0
  if c < .2:
    return 1
  if c < .28:
    return p - 1
  if c < .34:
    return 2 % p
  if c < .38:
    return (p + 1) // 2
  if c < .42:
    return rng.randrange(min(p, 300))
  return rng.randrange(p)


def raw_nonzero(rng, ring):
  while True:
    x = raw_elem(rng, ring)
    if (any(x) if isinstance(x, list) else x):
      return x


def raw_poly(rng, ring, maxdeg):
  c = rng.random()
  if c < .1:
    return []
  if c < .2:
    return [raw_nonzero(rng, ring)]
  d = rng.randint(0, maxdeg)
  out = [raw_elem(rng, ring) for _ in range(d)] + [raw_nonzero(rng, ring)]
  if rng.random() < .3:
    out = [x if rng.random() < .4 else (0 if not isinstance(x, list) else [0] * len(x)) for x in out[:-1]] + out[-1:]
  if rng.random() < .2:
    one = 1 if not isinstance(out[-1], list) else [1] + [0] * (len(out[-1]) - 1)
    out[-1] = one
  return out


def mk_poly(s, rid, raw, name=None):
  """Polynomial from coefficients; extension-field coefficients go through
  element registers."""
  ring = s.reg.rings[rid]
  if ring['k'] != 'gf':
    return s.polyn(rid, raw, name)
  es = [s.elem(rid, c) for c in raw]
  r = s.polyn(rid, es, name)
  s.drop(*[e.name for e in es])
  return r


def some_ref(s, rid):
  """mk_poly passes lists of Refs: Session.op dereferences lists too."""


def pick_field(s, rng, small=True, gf=True, big=False, maxp=46337, chars=None):
  """A random coefficient field for this session."""
  c = rng.random()
  if big and c < .2:
    return s.ctx.zp(rng.choice(BIG))
  if gf and c < .55:
    p, m = rng.choice([(2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (5, 2), (2, 5), (7, 2), (2, 8)])
    if chars:
      p, m = rng.choice([(p_, m_) for p_, m_ in [(2, 2), (2, 3), (3, 2), (2, 4), (5, 2), (7, 2), (3, 3)] if p_ in chars])
    if rng.random() < .3:
      return s.ctx.gf(p, m)
    return s.ctx.gf(p, m, pm.random_irreducible(rng, p, m))
  return s.ctx.zp(rng.choice([p for p in SMALL if p <= maxp]))


# ---------------------------------------------------------------------------
# P01
def prime_exhaustive(s, p):
  rid = s.ctx.zp(p)
  F = s.ctx.field(rid)
  for a in range(p):
    x = s.elem(rid, a, 'x')
    s.do('neg', x)
    s.do('inv', x)
    s.do('int', x)
    s.do('bytes', x, d='y')
    s.do('newe', Ref('y'), d='z', r=rid)
    for n in list(range(0, p + 2)) + [2 * p - 2, 2 * p - 1, 3 * p - 3]:
      s.do('pow', x, n)
    s.drop('y', 'z')
    for b in range(p):
      y = s.elem(rid, b, 'y')
      for op in ('add', 'sub', 'mul', 'div', 'eq', 'ne'):
        s.do(op, x, y)
  s.keep()


def ctor_args(rng, p):
  out = [0, 1, -1, p, -p, p - 1, p + 1, 2 * p, -p - 1, 2**31, -2**31, 2**256 - 1, -2**256,
         rng.getrandbits(rng.choice([600, 2000])), rng.getrandbits(300), -rng.getrandbits(300), rng.randrange(-10**6, 10**6)]
  return out


def byte_args(rng, p):
  return [b'', b'\x00', b'\xff', b'\x00' * 32, b'\xff' * 32, p.to_bytes(40, 'big'), (p - 1).to_bytes(33, 'big'),
          (p + 1).to_bytes(40, 'big'), bytes(rng.randrange(256) for _ in range(rng.randint(1, 70))),
          bytes(rng.randrange(256) for _ in range(rng.choice([100, 257, 600]))),
          bytes(rng.randrange(256) for _ in range(32)), b'\x00\x01', b'\x01\x00']


def p01_random(s, rng, p, steps):
  rid = s.ctx.zp(p)
  ring = s.reg.rings[rid]
  regs = [s.elem(rid, raw_elem(rng, ring), 'r%d' % i) for i in range(4)]
  for a in ctor_args(rng, p):
    s.elem(rid, a, 'c')
    if rng.random() < .3:
      s.do('int', Ref('c'))
  for a in byte_args(rng, p):
    s.elem(rid, a, 'c')
  s.elem(rid, Ref('r1'), 'c')
  s.drop('c')
  top = p.bit_length() - 1
  for k in sorted({top, top - 1, 8, 32, 64, 128} & set(range(top + 1))):    # differences of one bit
    s.elem(rid, 2**k, 't')
    for a in (s.elem(rid, 0, 'c'), rng.choice(regs)):
      s.do('add', a, Ref('t'), d='u')
      if 'u' in s.regs:
        s.do('eq', a, Ref('u'))
        s.do('ne', Ref('u'), a)
  s.drop('t', 'u', 'c')
  for _ in range(steps):
    a, b = rng.choice(regs), rng.choice(regs)
    d = rng.choice(regs)
    op = rng.choice(['add', 'sub', 'mul', 'div', 'eq', 'ne', 'neg', 'inv', 'pow', 'bytes', 'new', 'int'])
    if op in ('add', 'sub', 'mul', 'div'):
      x = s.do(op, a, b, d=d.name)
      if x is None:
        s.elem(rid, raw_nonzero(rng, ring), d.name)
    elif op in ('eq', 'ne'):
      s.do(op, a, b)
      if rng.random() < .5:
        e = s.elem(rid, Ref(a.name), 't')
        s.do(op, a, e)
        s.drop('t')
      top = p.bit_length() - 1                                 # near misses
      e = s.elem(rid, 2**rng.choice([rng.randrange(top + 1), top, max(0, top - 1), min(top, rng.choice([1, 4, 8, 16, 31, 32, 63, 64, 128, 192]))]), 't')
      s.do('add', a, e, d='u')
      if 'u' in s.regs:
        s.do(op, a, Ref('u'))
        s.do(op, Ref('u'), a)
      s.drop('t', 'u')
    elif op == 'neg':
      s.do(op, a, d=d.name)
    elif op == 'inv':
      if s.do(op, a, d=d.name) is None:
        s.elem(rid, raw_nonzero(rng, ring), d.name)
    elif op == 'pow':
      if ring['k'] == 'big':
        n = rng.choice([0, 1, 2, 3, rng.randrange(200), p - 1, p, rng.getrandbits(rng.choice([8, 40]))]) if p < 2**32 or rng.random() < .1 else rng.choice([0, 1, 2, 3, 4, 5, 7, rng.getrandbits(12), rng.getrandbits(33)])
      else:
        n = rng.choice([0, 1, 2, 3, 4, 7, p - 2, p - 1, p, rng.randrange(2 * p), rng.getrandbits(29), rng.getrandbits(60), (p - 1) * rng.randrange(2, 9)])
      if rng.random() < .25:                                     # powers of zero and one
        e = s.elem(rid, rng.randrange(2), 't')
        s.do('pow', e, n)
        s.do('pow', e, (p - 1) * rng.randrange(1, 9))
        s.drop('t')
      s.do('pow', a, n, d=d.name)
    elif op == 'bytes':
      s.do('bytes', a, d='y')
      s.do('newe', Ref('y'), d='z', r=rid)
      s.drop('y', 'z')
    elif op == 'int':
      s.do('int', a)
    else:
      s.elem(rid, raw_elem(rng, ring), d.name)
  s.keep()


def P01(s, rng, sid, tier):
  if sid < 6:
    prime_exhaustive(s, [2, 3, 5, 7, 11, 13][sid])
  else:
    k = sid - 6
    allp = SMALL + BIG
    p = allp[k % len(allp)]
    if k >= len(allp) * 2:       # random primes of random size
      while True:
        p = rng.getrandbits(rng.choice([4, 6, 8, 12, 15, 20, 40, 100, 200, 255])) | 1
        if pm.is_prime(p):
          break
    p01_random(s, rng, p, 25 if p > 46340 else 120)


# ---------------------------------------------------------------------------
# P02
GFS = [(2, 2), (2, 3), (3, 2), (2, 4), (5, 2), (3, 3), (7, 2), (2, 5), (2, 6), (2, 8), (11, 2), (13, 2), (2, 17), (3, 4), (101, 2), (5, 3)]


def gf_exhaustive(s, p, m, mod):
  rid = s.ctx.gf(p, m, mod)
  els = [list(c) for c in itertools.product(range(p), repeat=m)]
  for a in els:
    x = s.elem(rid, a, 'x')
    s.do('neg', x)
    s.do('inv', x)
    s.do('bytes', x, d='y')
    s.do('newe', Ref('y'), d='z', r=rid)
    for n in list(range(0, p**m + 2)) + [2 * p**m - 2, 2 * p**m - 1, 3 * p**m - 3]:
      s.do('pow', x, n)
    s.drop('y', 'z')
    for b in els:
      y = s.elem(rid, b, 'y')
      for op in ('add', 'sub', 'mul', 'div', 'eq', 'ne'):
        s.do(op, x, y)
  s.keep()


def p02_random(s, rng, p, m, mod, steps):
  rid = s.ctx.gf(p, m, mod)
  zid = zp_id(p)
  ring = s.reg.rings[rid]
  regs = [s.elem(rid, raw_elem(rng, ring), 'r%d' % i) for i in range(4)]
  # constructor arguments
  for a in [0, 1, -1, p, p - 1, -p - 1, 10**9, 2**70, [], [0], [0] * (m + 3), [rng.randrange(-p, 2 * p) for _ in range(2 * m)],
            [rng.randrange(p) for _ in range(m + 1)], [0] * m + [1], [rng.randrange(p) for _ in range(3 * m + 2)], list(s.reg.rings[rid]['mod'])]:
    s.elem(rid, a, 'c')
  s.drop('c')
  z = s.elem(zid, rng.randrange(p))
  s.elem(rid, z, 'c')
  for n in (0, 1, m, m + 1, 2 * m + 1):
    f = s.polyn(zid, [rng.randrange(p) for _ in range(n)], 'f')
    s.elem(rid, f, 'c')
  f = s.polyn(zid, list(s.reg.rings[rid]['mod']), 'f')
  s.elem(rid, f, 'c')
  s.elem(rid, Ref('r0'), 'c')
  for k in (0, 1, 2, m, m + 1, m + 3):
    s.elem(rid, b''.join(rng.choice([0, 1, p - 1, p, rng.randrange(p), rng.getrandbits(250)]).to_bytes(32, 'big') for _ in range(k)), 'c')
  s.keep(*regs)
  for _ in range(steps):
    a, b, d = rng.choice(regs), rng.choice(regs), rng.choice(regs)
    op = rng.choice(['add', 'sub', 'mul', 'div', 'eq', 'ne', 'neg', 'inv', 'pow', 'bytes', 'new', 'same'])
    if op in ('add', 'sub', 'mul', 'div'):
      if s.do(op, a, b, d=d.name) is None:
        s.elem(rid, raw_nonzero(rng, ring), d.name)
    elif op in ('eq', 'ne'):
      s.do(op, a, b)
    elif op == 'same':
      e = s.elem(rid, Ref(a.name), 't')
      s.do('eq', a, e)
      s.do('ne', a, e)
      k = rng.randrange(m)                                     # near misses
      s.elem(rid, [0] * k + [1 + rng.randrange(p - 1)] + [0] * (m - 1 - k), 't')
      s.do('add', a, e, d='u')
      if 'u' in s.regs:
        s.do('eq', a, Ref('u'))
        s.do('ne', Ref('u'), a)
      s.drop('t', 'u')
    elif op == 'neg':
      s.do(op, a, d=d.name)
    elif op == 'inv':
      if s.do(op, a, d=d.name) is None:
        s.elem(rid, raw_nonzero(rng, ring), d.name)
    elif op == 'pow':
      q = p**m
      if rng.random() < .4:                                      # powers of zero and one
        e = s.elem(rid, [rng.randrange(2)], 't')
        s.do('pow', e, (q - 1) * rng.randrange(1, 9))
        s.do('pow', e, rng.getrandbits(rng.choice([3, 12, 40])))
        s.drop('t')
      s.do('pow', a, rng.choice([0, 1, 2, 3, 4, 5, q - 2, q - 1, q, (q - 1) * rng.randrange(2, 9), rng.randrange(3 * q), p, rng.getrandbits(40), rng.getrandbits(70)]), d=d.name)
    elif op == 'bytes':
      s.do('bytes', a, d='y')
      s.do('newe', Ref('y'), d='z', r=rid)
      s.drop('y', 'z')
    else:
      s.elem(rid, raw_elem(rng, ring), d.name)
  s.keep()


def P02(s, rng, sid, tier):
  ex = [(2, 2, [1, 1, 1]), (2, 3, [1, 1, 0, 1]), (2, 3, [1, 0, 1, 1]), (3, 2, [1, 0, 1]), (3, 2, [2, 1, 1]), (3, 2, [2, 2, 1])]
  if sid < len(ex):
    return gf_exhaustive(s, *ex[sid])
  k = sid - len(ex)
  p, m = GFS[k % len(GFS)]
  c = (k // len(GFS)) % 4
  if c == 1 and p**m < 3000:
    mod = None
  elif c == 2 and p > 2:
    mod = pm.random_irreducible(rng, p, m, monic=False)
  else:
    mod = pm.random_irreducible(rng, p, m)
  if (p, m) == (2, 4) and c == 0:
    mod = [1, 1, 1, 1, 1]
  p02_random(s, rng, p, m, mod, 60)


# ---------------------------------------------------------------------------
# P04
def P04(s, rng, sid, tier):
  if sid < 3:
    return poly_exhaustive(s, [2, 3, 2][sid], [3, 2, 2][sid], sid)
  rid = pick_field(s, rng, big=(sid % 4 == 0))
  ring = s.reg.rings[rid]
  big = ring['k'] == 'big'
  md = 4 if big else (6 if ring['k'] == 'gf' else 12)
  regs = [mk_poly(s, rid, raw_poly(rng, ring, md), 'f%d' % i) for i in range(4)]
  zero = mk_poly(s, rid, [], 'zero')
  # trailing zeros and unreduced coefficients in the constructor
  if ring['k'] != 'gf':
    p = ring['p'] if not big else 0
    s.polyn(rid, [1, 2, 0, 0], 'c')
    s.polyn(rid, [0, 0, 0], 'c')
    s.polyn(rid, [-1, 3, -5], 'c')
    s.polyn(rid, 5, 'c')
    s.polyn(rid, 0, 'c')
    if not big:
      s.polyn(rid, [1, 0, p, 2 * p], 'c')
      s.polyn(rid, [p, p + 1, -p], 'c')
    s.polyn(rid, b''.join(rng.getrandbits(256).to_bytes(32, 'big') for _ in range(rng.randint(0, 4))) + rng.choice([b'', bytes(32)]), 'c')
    s.drop('c')
  s.polyn(rid, Ref('f0'), 'c')
  e = s.elem(rid, raw_elem(rng, ring), 'c2')
  s.polyn(rid, e, 'c')
  s.drop('c', 'c2')
  allr = regs + [zero]
  for _ in range(10 if big else 30):
    a, b, d = rng.choice(allr), rng.choice(allr), rng.choice(regs)
    op = rng.choice(['add', 'sub', 'mul', 'neg', 'eq', 'ne', 'pow', 'powmod', 'call', 'comp', 'divmod', 'div', 'mod', 'deg', 'bytes',
                     'new', 'mulmod', 'cancel', 'lc', 'coeffs', 'near', 'large'])
    ok = True
    if op == 'large' and ring['k'] == 'zp':
      mk = lambda n, name: mk_poly(s, rid, [raw_elem(rng, ring) for _ in range(n)] + [raw_nonzero(rng, ring)], name)
      x, y = mk(rng.randint(15, 70), 'x'), mk(rng.randint(1, 70), 'y')
      c = rng.randrange(4)
      if c == 0:
        s.do('mul', x, y, d='t')
        s.do('mul', y, x, d='u')
      elif c == 1:
        s.do(rng.choice(['divmod', 'div', 'mod']), x, y, d='t')
        e = s.elem(rid, raw_elem(rng, ring), 'v')
        s.do('call', x, e)
      elif c == 2:
        mk(rng.randint(2, 5), 'y')
        mk(rng.randint(0, 2), 'x')
        s.do('powmod', x, rng.getrandbits(rng.choice([8, 16, 40, 64])), y, d='t', reduced=False)
      else:
        mk(rng.randint(0, 2), 'x')
        s.do('pow', x, rng.choice([7, 8, 16, 31, 33]), d='t')
        mk(rng.randint(15, 70), 'x')
        s.do('add', x, y, d='u')
        s.do('sub', y, x, d='u')
      s.drop('x', 'y', 't', 'u', 'v')
    if op == 'near':              # one coefficient more, less or changed
      z = [0] if ring['k'] != 'gf' else [[0] * ring['m']]
      for k in {0, rng.randint(0, md), len(s.regs[a.name].coefficients)}:
        mk_poly(s, rid, z * k + [raw_nonzero(rng, ring)], 't')
        s.do('add', a, Ref('t'), d='u')
        if 'u' in s.regs:
          for o in ('eq', 'ne'):
            s.do(o, a, Ref('u'))
            s.do(o, Ref('u'), a)
        s.drop('t', 'u')
    if op in ('add', 'sub', 'mul'):
      ok = s.do(op, a, b, d=d.name)
    elif op == 'neg':
      ok = s.do(op, a, d=d.name)
    elif op in ('eq', 'ne'):
      s.do(op, a, b)
      s.do(op, a, a)
    elif op == 'pow':
      s.do(op, a, rng.choice([0, 1, 2, 3] if big else [0, 1, 2, 3, 4, 5]), d='t')
      s.drop('t')
    elif op == 'powmod':
      m = mk_poly(s, rid, (raw_poly(rng, ring, 3) or []) + [1 if big else raw_nonzero(rng, ring)], 'm')
      n = rng.choice([0, 1, 2, 3, 5, 6, rng.randrange(40)])
      x = s.regs.get(a.name)
      y = s.regs.get('m')
      if x is not None and y is not None:
        s.do('powmod', a, n, m, d='t', reduced=False)
      s.drop('m', 't')
    elif op == 'call':
      x = s.elem(rid, raw_elem(rng, ring), 'x')
      s.do('call', a, x)
      if rng.random() < .3:
        s.do('call', a, rng.choice([0, 1, 2, -1]))
      s.drop('x')
    elif op == 'comp':
      x = mk_poly(s, rid, raw_poly(rng, ring, 2), 'x')
      if composable(s, rid, a):
        s.do('call', a, x, d='t')
      s.drop('x', 't')
    elif op in ('divmod', 'div', 'mod'):
      op = 'divmod' if big else op
      if rng.random() < .4:      # exact multiples
        s.do('mul', a, b, d='t')
        if 't' in s.regs and len(s.regs['t']) < 40:
          if s.regs[b.name].coefficients or op != 'divmod':
            s.do(op, Ref('t'), b, d='q')
      elif s.regs[b.name].coefficients or op != 'divmod':
        s.do(op, a, b, d='q')
      s.drop('t', 'q')
    elif op == 'mulmod':          # dividend = q*b + r, sparse divisor
      z = [0] if ring['k'] != 'gf' else [[0] * ring['m']]
      b2 = mk_poly(s, rid, [raw_nonzero(rng, ring)] + z * rng.randint(0, 3) + [raw_nonzero(rng, ring)], 'b2')
      s.do('divmod', a, b2, d='q')
      s.drop('b2', 'q')
    elif op == 'deg':
      s.do('deg', a)
      s.do('iszero', a)
      s.do('len', a)
    elif op == 'lc':
      if s.regs[a.name].coefficients:
        s.do('lc', a)
    elif op == 'coeffs':
      s.do('coeffs', a)
    elif op == 'cancel':
      s.do('sub', a, b, d='t')
      if 't' in s.regs:
        s.do('add', Ref('t'), b, d='u')
        s.do('sub', Ref('t'), a, d='u')
      s.drop('t', 'u')
    elif op == 'bytes' and ring['k'] != 'gf':    # over GF the encoding is not self-delimiting
      s.do('bytes', a, d='y')
      s.do('newp', Ref('y'), d='z', r=rid)
      s.drop('y', 'z')
    elif op == 'new':
      mk_poly(s, rid, raw_poly(rng, ring, md), d.name)
    if ok is None or (d.name in s.regs and len(s.regs[d.name].coefficients) > 2 * md + 2) or d.name not in s.regs:
      mk_poly(s, rid, raw_poly(rng, ring, md), d.name)
  s.keep()


def poly_exhaustive(s, p, n, variant):
  """All pairs of polynomials with < = n coefficients over Z/p."""
  rid = s.ctx.zp(p)
  allp = [list(c) for c in itertools.product(range(p), repeat=n)]
  for a in allp:
    x = s.polyn(rid, a, 'x')
    s.do('deg', x)
    s.do('neg', x)
    for v in range(p):
      s.do('call', x, v)
    for b in allp:
      y = s.polyn(rid, b, 'y')
      for op in ('add', 'sub', 'mul', 'eq', 'ne', 'div', 'mod'):
        s.do(op, x, y)
      if any(b):
        s.do('divmod', x, y)
      if composable(s, rid, x):
        s.do('call', x, y)
  s.keep()


# ---------------------------------------------------------------------------
# P05
def raw_multi(rng, ring, n, terms, maxe):
  out = {}
  if rng.random() < .08:
    terms = 2 * terms
  if rng.random() < .08:
    maxe = 13 * maxe
  for _ in range(rng.randint(0, terms)):
    e = tuple(rng.choice([0, 0, 1, 1, rng.randint(0, maxe)]) for _ in range(n))
    out[e] = raw_nonzero(rng, ring) if rng.random() < .9 else raw_elem(rng, ring)
  return [[list(e), v] for e, v in out.items()]


def mk_multi(s, rid, n, pairs, name=None):
  ring = s.reg.rings[rid]
  if ring['k'] != 'gf':
    return s.mult(rid, n, pairs, name)
  es = [s.elem(rid, v) for _, v in pairs]
  r = s.mult(rid, n, [[e, x] for (e, _), x in zip(pairs, es)], name)
  s.drop(*[e.name for e in es])
  return r


def P05(s, rng, sid, tier):
  rid = pick_field(s, rng, big=(sid % 8 == 0))
  ring = s.reg.rings[rid]
  s.ctx.poly(rid)
  n = rng.choice([1, 2, 2, 3, 3, 4, rng.choice([5, 6, 7])])
  new = lambda name: mk_multi(s, rid, n, raw_multi(rng, ring, n, 5, 3), name)
  regs = [new('m%d' % i) for i in range(3)]
  zero = mk_multi(s, rid, n, [], 'zero')
  mk_multi(s, rid, n, [[[0] * n, raw_nonzero(rng, ring)], [[1] * n, raw_elem(rng, ring)]], 'c')
  s.drop('c')
  if ring['k'] != 'gf':
    s.mult(rid, n, 0, 'c')
    s.mult(rid, n, 3, 'c')
    s.mult(rid, n, [[[0] * n, -1], [[2] + [0] * (n - 1), 0]], 'c')
    if ring['k'] == 'zp':
      s.mult(rid, n, [[[1] * n, ring['p']], [[0] * n, ring['p'] + 1]], 'c')
    s.drop('c')
  allr = regs + [zero]
  for _ in range(22):
    a, b, d = rng.choice(allr), rng.choice(allr), rng.choice(regs)
    op = rng.choice(['add', 'sub', 'mul', 'neg', 'eq', 'pow', 'mcall', 'mcallp', 'mcallm', 'deg', 'miter', 'mget', 'new', 'cancel', 'foil', 'near'])
    if op in ('add', 'sub', 'mul'):
      s.do(op, a, b, d=d.name)
    elif op == 'neg':
      s.do(op, a, d=d.name)
    elif op == 'near':            # one monomial more, less or changed
      ks = sorted(s.regs[a.name].coefficients) or [(0,) * n]
      for e in ([list(rng.choice(ks))], [[0] * n], [[rng.randint(0, 2) for _ in range(n)]]):
        mk_multi(s, rid, n, [[e[0], raw_nonzero(rng, ring)]], 't')
        s.do('add', a, Ref('t'), d='u')
        if 'u' in s.regs:
          for o in ('eq', 'ne'):
            s.do(o, a, Ref('u'))
            s.do(o, Ref('u'), a)
        s.drop('t', 'u')
    elif op == 'eq':
      s.do('eq', a, b)
      s.do('eq', a, a)
      s.do('ne', a, b)
      s.mult(rid, n, Ref(a.name), 'c')
      s.do('eq', a, Ref('c'))
      s.drop('c')
    elif op == 'pow':
      if len(s.regs[a.name]) <= 3:
        s.do('pow', a, rng.choice([0, 1, 2, 3, 4]), d='t')
        s.drop('t')
    elif op == 'mcall':
      xs = [s.elem(rid, raw_elem(rng, ring), 'v%d' % i) for i in range(n)]
      l = s.lst(xs, 'xs')
      s.do('mcall', a, l)
      s.drop('xs', *[x.name for x in xs])
    elif op in ('mcallp', 'mcallm') and any(k > 7 for e in s.regs[a.name].coefficients for k in e):
      pass
    elif op == 'mcallp':
      xs = [mk_poly(s, rid, raw_poly(rng, ring, 2), 'v%d' % i) for i in range(n)]
      l = s.lst(xs, 'xs')
      if s.regs[a.name].coefficients:
        s.do('mcall', a, l) if any_poly_result(s, a, n) else None
      s.drop('xs', *[x.name for x in xs])
    elif op == 'mcallm':
      xs = [mk_multi(s, rid, n, raw_multi(rng, ring, n, 2, 1), 'v%d' % i) for i in range(n)]
      l = s.lst(xs, 'xs')
      if any_poly_result(s, a, n) and len(s.regs[a.name]) <= 4:
        s.do('mcall', a, l)
      s.drop('xs', *[x.name for x in xs])
    elif op == 'deg':
      s.do('deg', a)
      s.do('iszero', a)
    elif op == 'miter':
      s.do('miter', a)
    elif op == 'mget':
      s.do('mget', a, [rng.randint(0, 2) for _ in range(n)])
      if s.regs[a.name].coefficients:
        s.do('mget', a, list(rng.choice(sorted(s.regs[a.name].coefficients))))
    elif op == 'cancel':
      s.do('sub', a, b, d='t')
      if 't' in s.regs:
        s.do('add', Ref('t'), b, d='u')
        s.do('eq', Ref('u'), a) if 'u' in s.regs else None
        s.do('sub', a, a, d='u')
      s.drop('t', 'u')
    elif op == 'foil':      # (a+b)(a-b): cancelling cross terms
      s.do('add', a, b, d='t')
      s.do('sub', a, b, d='u')
      if 't' in s.regs and 'u' in s.regs and len(s.regs['t']) * len(s.regs['u']) < 60:
        s.do('mul', Ref('t'), Ref('u'), d='w')
      s.drop('t', 'u', 'w')
    else:
      new(d.name)
    if d.name not in s.regs or len(s.regs[d.name]) > 14 or s.regs[d.name].degree() > 12:
      new(d.name)
  s.keep()


def composable(s, rid, a):
  return s.reg.rings[rid]['k'] != 'gf' and len(s.regs[a.name].coefficients) >= 2


def any_poly_result(s, a, n):
  """Evaluating at polynomials yields a polynomial only if the polynomial is
  not constant (a constant yields a ring element): keep to that domain."""
  c = s.regs[a.name].coefficients
  if s.reg.rings[s.reg.classes[type(s.regs[a.name])][1]]['k'] == 'gf':
    return False
  return bool(c) and all(any(e) for e in c)


# ---------------------------------------------------------------------------
# P06
def P06(s, rng, sid, tier):
  if sid == 0:
    for a in range(0, 25):
      for b in range(0, 25):
        int_gcd(s, a, b)
    for _ in range(200):
      int_gcd(s, rng.randint(-30, 30), rng.randint(-30, 30))
    return
  if sid % 2:
    for _ in range(60):
      k = rng.choice([4, 8, 16, 33, 64, 100, 256])
      a, b = rng.getrandbits(k), rng.getrandbits(rng.choice([k, 3, 40]))
      c = rng.random()
      if c < .15:
        b = a
      elif c < .25:
        b = 0
      elif c < .35:
        a = 0
      elif c < .5:
        a *= b
      elif c < .6:
        g = rng.getrandbits(20)
        a, b = a * g, b * g
      elif c < .65:
        a, b = 1, b
      elif c < .75:
        f = [1, 1]
        while len(f) < rng.randint(3, 120):
          f.append(f[-1] + f[-2])
        a, b = f[-1], f[-2]
      if rng.random() < .3:
        a, b = rng.choice([1, -1]) * a, rng.choice([1, -1]) * b
      int_gcd(s, a, b)
    return
  rid = pick_field(s, rng)
  ring = s.reg.rings[rid]
  md = 4 if ring['k'] == 'gf' else rng.choice([7, 7, 7, 30])
  for _ in range(12 if md < 30 else 4):
    a = mk_poly(s, rid, raw_poly(rng, ring, md), 'a')
    b = mk_poly(s, rid, raw_poly(rng, ring, md), 'b')
    c = rng.random()
    if c < .4:
      g = mk_poly(s, rid, raw_poly(rng, ring, 2), 'g')
      s.do('mul', a, g, d='a')
      s.do('mul', b, g, d='b')
    elif c < .5:
      s.do('mul', a, b, d='b')
    elif c < .55:
      s.polyn(rid, Ref('a'), 'b')
    if 'a' not in s.regs or 'b' not in s.regs:
      continue
    s.drop('g')
    s.do('gcdp', a, b)
    s.do('gcdp', b, a)
    s.do('egcdp', a, b)
    s.do('egcdp', b, a)
  s.keep()


def bez(a, b):
  x0, x1, y0, y1 = 1, 0, 0, 1
  while b:
    q = a // b
    a, b, x0, x1, y0, y1 = b, a - q * b, x1, x0 - q * x1, y1, y0 - q * y1
  return x0, y0


def int_gcd(s, a, b):
  x, y = bez(a, b)
  s.do('gcd', a, b, x=s.reg.encode(x), y=s.reg.encode(y))
  s.do('egcd', a, b)


# ---------------------------------------------------------------------------
# P07
def P07(s, rng, sid, tier):
  table = [(2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 1), (3, 2), (3, 3), (5, 1), (5, 2), (7, 2), (2, 6), (3, 4), (2, 7), (11, 2), (13, 2)]
  gen = [(2, n) for n in range(1, 9)] + [(3, n) for n in range(1, 5)] + [(5, 1), (5, 2), (5, 3), (7, 1), (7, 2), (11, 2), (13, 1), (31, 2)]
  if sid < len(table):
    p, n = table[sid]
    rid = s.ctx.zp(p)
    s.ctx.poly(rid)
    polys = [list(c) + [1] for c in itertools.product(range(p), repeat=n)]
    if len(polys) > 130:
      polys = rng.sample(polys, 130)
    for f in polys:
      x = s.polyn(rid, f, 'f')
      s.do('irred', x, p=p)
      if p**n <= 130:
        s.do('prim', x, p=p, n=n)
      s.do('monic', x)
      if n >= 2 and p**n <= 40:
        s.do('fieldof', x, p=p, n=n)
    s.keep()
    return
  if sid < len(table) + len(gen):
    p, n = gen[sid - len(table)]
    rid = s.ctx.zp(p)
    s.ctx.poly(rid)
    for _ in range(6 if p**n < 130 else 2):
      s.do('genirred', r=rid, p=p, n=n)
      if p**n < 600:
        s.do('genprim', r=rid, p=p, n=n)
    return
  # irreducible ones whose root generates a subgroup of every maximal index
  deep = [(2, 4), (2, 6), (2, 8), (2, 9), (2, 10), (2, 11), (3, 3), (3, 4), (3, 5), (3, 6), (5, 3), (5, 4), (7, 3), (13, 2), (31, 2), (47, 2), (13, 3)]
  if sid % 2 == 0:
    p, n = deep[sid // 2 % len(deep)]
    rid = s.ctx.zp(p)
    s.ctx.poly(rid)
    q = p**n
    base = pm.random_irreducible(rng, p, n)
    g = pm.generator(rng, base, p)
    for f in pm.factor(q - 1) + [1]:
      e = f * rng.choice([1, 1, 2, 3])
      h = pm.minpoly(pm.ppow(g, e, base, p), base, p)
      x = s.polyn(rid, h, 'f')
      s.do('irred', x, p=p)
      if len(h) == n + 1:
        s.do('prim', x, p=p, n=n)
    return s.keep()
  # products of irreducibles of chosen shapes, larger degree
  p = rng.choice([2, 2, 3, 5, 7, 11, 101, 257])
  rid = s.ctx.zp(p)
  s.ctx.poly(rid)
  for _ in range(20):
    shape = rng.choice([(1, 1), (2,), (3,), (1, 2), (2, 2), (4,), (1, 1, 1), (2, 3), (5,), (6,), (3, 3), (1, 4), (4, 4), (2, 4), (1, 5), (7,), (8,), (2, 2, 2)])
    if p < 5 and rng.random() < .2:
      shape = rng.choice([(5, 5), (6, 6), (7, 7), (8, 8), (9,), (12,), (16,), (3, 9), (10, 10)])
    f = [1]
    fac = None
    for k in shape:
      g = fac if fac is not None and len(fac) - 1 == k and rng.random() < .5 else pm.random_irreducible(rng, p, k)
      fac = g
      f = pm.pmul(f, g, p)
    x = s.polyn(rid, f, 'f')
    s.do('irred', x, p=p)
    n = len(f) - 1
    if p**n < 600:
      s.do('prim', x, p=p, n=n)
    if n >= 2 and p**n < 300 and rng.random() < .4:
      s.do('fieldof', x, p=p, n=n)
  s.keep()


# ---------------------------------------------------------------------------
# P08
def distinct(rng, ring, n):
  out = []
  while len(out) < n:
    x = raw_elem(rng, ring)
    if x not in out:
      out.append(x)
  return out


def fsize(ring):
  if ring['k'] == 'gf':
    return ring['p']**ring['m']
  return ring['p'] if ring['k'] == 'zp' else 1 << 60


def P08(s, rng, sid, tier):
  rid = pick_field(s, rng, big=(sid % 5 == 0))
  ring = s.reg.rings[rid]
  s.ctx.poly(rid)
  mk = lambda raws, pre: [s.elem(rid, a, '%s%d' % (pre, i)) for i, a in enumerate(raws)]
  n = fsize(ring)
  big = ring['k'] == 'big'
  large = sid % 8 == 7 and ring['k'] == 'zp'
  for _ in range(3 if big or large else 6):
    k = rng.choice([1, 2, 3, 4, 5, 8] if not big else [2, 3, 4])
    k = min(rng.randint(9, 24) if large else k, n)
    xs = s.lst(mk(distinct(rng, ring, k), 'x'), 'xs')
    ys = s.lst(mk([raw_elem(rng, ring) if rng.random() < .8 else 0 * 1 if ring['k'] != 'gf' else [0] * ring['m'] for _ in range(k)], 'y'), 'ys')
    s.do('interp', xs, ys, d='f', r=rid)
    if 'f' in s.regs and k:
      s.do('call', Ref('f'), Ref('x0'))
    s.keep()
    # two points
    if n >= 2:
      xs = s.lst(mk(distinct(rng, ring, 2), 'x'), 'xs')
      ys = s.lst(mk([raw_elem(rng, ring) for _ in range(2)], 'y'), 'ys')
      s.do('interp2', xs, ys, d='f', r=rid)
      s.keep()
      if ring['k'] == 'zp' and ring['p'] > 2:       # plain integers, as the verifier passes them
        a = rng.sample(range(ring['p']), 2)
        e = s.elem(rid, a[1], 'x1')
        s.do('interp2', [a[0], e], [rng.choice([0, 1, rng.randrange(ring['p'])]), rng.choice([0, rng.randrange(ring['p'])])], d='f', r=rid)
        s.keep()
    if n >= 4:
      xs = s.lst(mk(distinct(rng, ring, 4), 'x'), 'xs')
      ys = s.lst(mk([raw_elem(rng, ring) if rng.random() < .8 else raw_elem(rng, ring) for _ in range(4)], 'y'), 'ys')
      s.do('interp4', xs, ys, d='f', r=rid)
      s.do('interp', xs, ys, d='g', r=rid)
      s.keep()
      m = rng.randint(4, 14) if large else rng.randint(1, 3)
      if not big:
        xr, yr = [], []
        for j in range(m):
          xr.append(s.lst(mk(distinct(rng, ring, 4), 'x%d_' % j), 'xs%d' % j))
          yr.append(s.lst(mk([raw_elem(rng, ring) for _ in range(4)], 'y%d_' % j), 'ys%d' % j))
        X = s.lst(xr, 'X')
        Y = s.lst(yr, 'Y')
        s.keep(X, Y)
        s.do('minterp4', X, Y, d='L', r=rid)
        s.keep()
    # vanishing polynomial with multiplicities, batch inverse with zeros
    k = rng.randint(0, 3 if big else 30 if large else 6)
    rs = [raw_elem(rng, ring) for _ in range(k)]
    if k > 1 and rng.random() < .4:
      rs[-1] = rs[0]
    xs = s.lst(mk(rs, 'x'), 'xs')
    s.do('zpoly', xs, d='f', r=rid)
    s.keep()
    k = rng.randint(1, 4 if big else 90 if large else 8)
    rs = [raw_elem(rng, ring) for _ in range(k)]
    z = 0 if ring['k'] != 'gf' else [0] * ring['m']
    if rng.random() < .3:
      rs[0] = z
    if rng.random() < .3:
      rs[-1] = z
    if rng.random() < .1:
      rs = [z] * k
    xs = s.lst(mk(rs, 'x'), 'xs')
    s.do('multiinv', xs, d='l', r=rid)
    s.keep()
  s.keep()


# ---------------------------------------------------------------------------
# P09
def P09(s, rng, sid, tier):
  cfgs = [('z', 2, 1), ('z', 2, 2), ('z', 2, 3), ('z', 3, 1), ('z', 3, 2), ('z', 5, 1), ('z', 7, 1), ('g', (2, 2), 1), ('g', (2, 2), 2),
          ('g', (2, 3), 1), ('g', (3, 2), 1), ('z', 11, 1), ('z', 13, 1), ('z', 5, 2), ('z', 2, 4)]
  k, f, n = cfgs[sid % len(cfgs)]
  if k == 'z':
    rid = s.ctx.zp(f)
    els = list(range(f))
  else:
    rid = s.ctx.gf(f[0], f[1], pm.random_irreducible(rng, *f) if sid >= len(cfgs) else None)
    els = [list(c) for c in itertools.product(range(f[0]), repeat=f[1])]
  s.ctx.multi(rid, n)
  ring = s.reg.rings[rid]
  regs = [s.elem(rid, a, 'a%d' % i) for i, a in enumerate(els)]
  pts = list(itertools.product(range(len(els)), repeat=n))
  kinds = ['random', 'zero', 'const', 'delta', 'proj', 'random']
  for kind in kinds[:3 if len(pts) > 20 else 6]:
    hot = rng.randrange(len(pts))
    cst = rng.randrange(len(els))
    tab = []
    for i, pt in enumerate(pts):
      v = {'random': rng.randrange(len(els)), 'zero': 0, 'const': cst, 'delta': cst if i == hot else 0, 'proj': pt[0]}[kind]
      tab.append([[regs[j] for j in pt], regs[v]])
    s.do('arith', tab, d='f', r=rid, n=n)
    s.drop('f')
  for i in rng.sample(range(len(pts)), min(3, len(pts))):
    s.do('dirac', [regs[j] for j in pts[i]], d='f', r=rid, n=n)
    s.drop('f')
  s.keep()


# ---------------------------------------------------------------------------
# P10
def root_of_order(s, rng, rid, n):
  """A register holding an element of order exactly n (None if impossible)."""
  ring = s.reg.rings[rid]
  if ring['k'] == 'zp':
    p = ring['p']
    g = pm.primitive_root(p)
    k = rng.randrange(1, n + 1)
    import math
    while math.gcd(k, n) != 1:
      k = rng.randrange(1, n + 1)
    return s.elem(rid, pow(g, (p - 1) // n * k, p), 'w')
  q = ring['p']**ring['m']
  mod = ring['mod']
  p = ring['p']
  while True:
    x = [rng.randrange(p) for _ in range(ring['m'])]
    y = pm.ppow(pm.strip(x), (q - 1) // n, mod, p)
    if y and all(pm.ppow(y, n // f, mod, p) != [1] for f in pm.factor(n)) and (n > 1 or y == [1]):
      return s.elem(rid, y + [0] * (ring['m'] - len(y)), 'w')


def P10(s, rng, sid, tier):
  zs = [(7, 6), (7, 3), (7, 2), (13, 12), (17, 16), (17, 8), (257, 64), (257, 128), (769, 32), (769, 48), (97, 32), (97, 96), (12289, 64),
        (41, 40), (31, 30), (101, 20), (101, 25), (11, 5), (11, 10), (5, 4), (3, 2), (12289, 24), (769, 12), (40961, 16), (40961, 40), (257, 256), (12289, 512), (12289, 1024), (12289, 2048), (40961, 1280)]
  gs = [((2, 4), 15), ((2, 4), 5), ((3, 2), 8), ((3, 2), 4), ((5, 2), 24), ((5, 2), 12), ((7, 2), 16), ((2, 3), 7), ((7, 2), 48)]
  nz, ng = len(zs), len(gs)
  k = sid % (nz + ng)
  if k < nz:
    p, n = zs[k]
    rid = s.ctx.zp(p)
  else:
    (p, m), n = gs[k - nz]
    rid = s.ctx.gf(p, m, pm.random_irreducible(rng, p, m))
  s.ctx.poly(rid)
  ring = s.reg.rings[rid]
  w = root_of_order(s, rng, rid, n)
  if n > 600:                # few coefficients, so that the values at all points stay cheap to compute
    for deg in (0, 1, rng.randint(2, 5)):
      f = mk_poly(s, rid, [raw_elem(rng, ring) for _ in range(deg)] + [raw_nonzero(rng, ring)], 'f')
      s.do('fft', w, f, d='v', r=rid)
      if 'v' in s.regs:
        s.do('invfft', w, Ref('v'), d='g', r=rid)
        if 'g' in s.regs:
          s.do('eq', f, Ref('g'))
      s.drop('v', 'g')
    for da, db in ((2, n - 4), (n - 3, 2), (n // 2, 3)):
      s.do('mulpolys', [rng.randrange(ring['p']) for _ in range(da + 1)], [rng.randrange(ring['p']) for _ in range(db + 1)], w, r=rid)
    return s.keep()
  for it in range(1 if n > 200 else 3 if n > 40 else 5):
    f = mk_poly(s, rid, raw_poly(rng, ring, n - 1) if it else ([raw_elem(rng, ring) for _ in range(n - 1)] + [raw_nonzero(rng, ring)]), 'f')
    s.do('fft', w, f, d='v', r=rid)
    if 'v' in s.regs:
      s.do('invfft', w, Ref('v'), d='g', r=rid)
      if 'g' in s.regs:
        s.do('eq', f, Ref('g'))
    s.drop('v', 'g')
    es = [s.elem(rid, raw_elem(rng, ring), 'u%d' % i) for i in range(n)]
    if rng.random() < .25:
      es = es[:rng.randint(1, n)]
    vals = s.lst(es, 'vals')
    s.keep(w, vals)
    s.do('invfft', w, vals, d='g', r=rid)
    if 'g' in s.regs:
      s.do('fft', w, Ref('g'), d='v', r=rid)
    s.keep(w)
    # product through the transform
    da = rng.randint(0, n - 1)
    db = n - 1 - da if rng.random() < .5 else rng.randint(0, n - 1 - da)
    A = s.lst([s.elem(rid, raw_elem(rng, ring), 'a%d' % i) for i in range(da + 1)], 'A')
    Bq = s.lst([s.elem(rid, raw_elem(rng, ring), 'b%d' % i) for i in range(db + 1)], 'B')
    s.keep(w, A, Bq)
    s.do('mulpolys', A, Bq, w, d='C', r=rid)
    s.keep(w)
    if ring['k'] == 'zp' and rng.random() < .5:
      s.do('mulpolys', [rng.randrange(ring['p']) for _ in range(da + 1)], [rng.randrange(ring['p']) for _ in range(db + 1)], w, r=rid)
  s.keep()


# ---------------------------------------------------------------------------
# P17
def P17(s, rng, sid, tier):
  p = [2, 2, 3, 5, 7, 2, 3, 11, rng.choice([67, 71, 101, 127]), rng.choice([13, 17, 31])][sid % 10]
  rid = s.ctx.zp(p)
  ring = s.reg.rings[rid]
  s.ctx.poly(rid)
  for t in range(5):
    k = rng.choice([0, 1, 2, 3] if p <= 3 else [0, 1, 2] if p < 12 else [0, 1])
    if p == 2 and rng.random() < .4:
      k = rng.choice([4, 5, 6, 7])
    usepoly = rng.random() < .6
    if t == 4:                                     # the largest spaces
      k, usepoly = {2: 7, 3: 4, 5: 3, 7: 2, 11: 2}.get(p, 1), rng.random() < .2
    if usepoly:
      bs = []
      for j in range(k):
        bs.append(mk_poly(s, rid, [0] * j + [1] if rng.random() < .5 else raw_poly(rng, ring, 3), 'b%d' % j))
      sh = mk_poly(s, rid, raw_poly(rng, ring, 4), 'sh')
    else:
      bs = [s.elem(rid, raw_elem(rng, ring), 'b%d' % j) for j in range(k)]
      sh = s.elem(rid, raw_elem(rng, ring), 'sh')
    basis = s.lst(bs, 'basis')
    s.keep(basis, sh)
    s.do('afflen', basis, r=rid)
    if p**k <= 130:
      s.do('affine', basis, sh, r=rid, _noshift=False)
      zero = s.elem(rid, 0, 'zz')
      s.do('affine', basis, zero, r=rid, _noshift=True)
      s.drop('zz')
    if not usepoly and p**k <= 130:
      s.do('affvan', basis, sh, d='v', r=rid)
    s.keep()


# ---------------------------------------------------------------------------
# P18
def P18(s, rng, sid, tier):
  if sid < 3:
    p = [2, 3, 5][sid]
    for m1 in range(p):
      for n1 in range(1, p):
        s.do('qnew', d='a', p=p, m=m1, n=n1)
        s.do('qneg', Ref('a'))
        s.do('qinv', Ref('a'))
        s.do('qround', Ref('a'))
        for m2 in range(p):
          for n2 in range(1, p):
            s.do('qnew', d='b', p=p, m=m2, n=n2)
            for op in ('qadd', 'qsub', 'qmul', 'qdiv', 'qeq', 'qne'):
              s.do(op, Ref('a'), Ref('b'))
    s.keep()
    return
  p = SMALL[sid % len(SMALL)]
  regs = []
  for i in range(4):
    regs.append(Ref('q%d' % i))

  def new(name):
    m = rng.choice([0, 1, p - 1, rng.randrange(p), rng.randrange(-3 * p, 3 * p)])
    n = rng.choice([1, p - 1, rng.randrange(1, p), rng.randrange(1, p) + p])
    if n % p == 0:
      n = 1
    if rng.random() < .2:
      s.do('qnew', d=name, p=p, m=m, n=1, _two=False)
    else:
      s.do('qnew', d=name, p=p, m=m, n=n)
  for r in regs:
    new(r.name)
  for _ in range(60):
    a, b, d = rng.choice(regs), rng.choice(regs), rng.choice(regs)
    op = rng.choice(['qadd', 'qsub', 'qmul', 'qdiv', 'qeq', 'qne', 'qneg', 'qinv', 'qround', 'new', 'scaled', 'qpow', 'int'])
    if op in ('qadd', 'qsub', 'qmul', 'qdiv'):
      s.do(op, a, b, d=d.name)
    elif op in ('qeq', 'qne'):
      s.do(op, a, b)
      s.do(op, a, a)
    elif op in ('qneg', 'qinv', 'qround'):
      s.do(op, a, d=d.name)
    elif op == 'qpow':
      s.do(op, a, rng.choice([0, 1, 2, 3, 5, p - 1, rng.randrange(50)]))
    elif op == 'int':
      s.do(rng.choice(['qadd', 'qmul', 'qsub', 'qeq', 'qne']), a, rng.choice([0, 1, 2, p - 1]))
    elif op == 'scaled':        # same value from a scaled representative
      x = s.regs.get(a.name)
      if x is not None:
        c = rng.randrange(1, p)
        m, n = x.m * c % p, x.n * c % p
        if n:
          s.do('qnew', d='t', p=p, m=m, n=n)
          s.do('qeq', a, Ref('t'))
          s.do('qne', a, Ref('t'))
          s.do('qadd', b, Ref('t'))
          s.drop('t')
    if d.name not in s.regs or op == 'new':
      new(d.name)
  s.keep()


# ---------------------------------------------------------------------------
# P24
def P24(s, rng, sid, tier):
  rid = pick_field(s, rng)
  ring = s.reg.rings[rid]
  s.ctx.poly(rid)
  for _ in range(6):
    w = rng.randint(1, rng.choice([4, 4, 7]))
    i = rng.randrange(w)
    s.ctx.multi(rid, w)
    f = mk_poly(s, rid, raw_poly(rng, ring, rng.choice([5, 5, 5, 30])), 'f')
    s.do('makemulti', f, d='m', r=rid, n=w, i=i)
    xs = s.lst([s.elem(rid, raw_elem(rng, ring), 'v%d' % j) for j in range(w)], 'xs')
    if 'm' in s.regs:
      s.do('mcall', Ref('m'), xs)
      s.do('call', f, Ref('v%d' % i))
    s.keep()
    w = rng.randint(2, rng.choice([4, 4, 7]))
    i = rng.randrange(w)
    s.ctx.multi(rid, w)
    s.ctx.pmulti(rid, w - 1)
    g = mk_multi(s, rid, w, raw_multi(rng, ring, w, 5, 3), 'g')
    s.do('project', g, d='u', r=rid, n=w, i=i)
    s.keep()
  s.do('xis', r=rid, n=rng.randint(1, 5)) if False else None
  s.keep()


# ---------------------------------------------------------------------------
# P25
def P25(s, rng, sid, tier):
  use_gf = sid % 2 == 0
  if use_gf:
    p, m = rng.choice([(2, 2), (2, 3), (3, 2), (5, 2), (7, 2), (2, 4)])
    fid = s.ctx.gf(p, m, pm.random_irreducible(rng, p, m))
    zid = zp_id(p)
  else:
    zid = s.ctx.zp(rng.choice([2, 3, 5, 7, 13, 97, 257, 12289]))
    p = s.reg.rings[zid]['p']
    s.ctx.poly(zid)
  zr = s.reg.rings[zid]
  n = rng.randint(1, 3)
  for _ in range(5):
    vals = {}
    i = rng.choice([0, 1, 2, -1, p, p + 1, -p - 2, rng.randrange(-50, 50), rng.choice([1, -1]) * rng.getrandbits(rng.choice([33, 64, 260]))])
    vals['z'] = s.elem(zid, raw_elem(rng, zr), 'z')
    if use_gf:
      fr = s.reg.rings[fid]
      vals['e'] = s.elem(fid, raw_elem(rng, fr), 'e')
      vals['zp'] = s.polyn(zid, raw_poly(rng, zr, 3), 'zp')
      vals['fp'] = mk_poly(s, fid, raw_poly(rng, fr, 2), 'fp')
      vals['fm'] = mk_multi(s, fid, n, raw_multi(rng, fr, n, 3, 2), 'fm')
      pairs = [('i', 'z'), ('i', 'e'), ('i', 'zp'), ('i', 'fp'), ('i', 'fm'), ('z', 'e'), ('z', 'zp'), ('zp', 'e'), ('e', 'fm'), ('z', 'fp')]
      pairs = [q for q in pairs if q != ('z', 'fp')]
    else:
      vals['zp'] = s.polyn(zid, raw_poly(rng, zr, 3), 'zp')
      vals['zm'] = s.mult(zid, n, raw_multi(rng, zr, n, 3, 2), 'zm')
      pairs = [('i', 'z'), ('i', 'zp'), ('i', 'zm'), ('z', 'zp'), ('z', 'zm')]
    vals['i'] = i
    for a, b in pairs:
      for x, y in ((vals[a], vals[b]), (vals[b], vals[a])):
        for op in ('add', 'sub', 'mul', 'eq'):
          s.do(op, x, y)
      if b in ('z', 'e', 'zp', 'fp'):
        s.do('ne', vals[a], vals[b])
      if b == 'e' or (b == 'z' and a == 'i'):
        # field quotients (an int divides nothing: ints have no inverse)
        if a != 'i' and not (a == 'zp'):
          s.do('div', vals[b], vals[a]) if a == 'z' else None
        s.do('div', vals[a], vals[b]) if a in ('i', 'z') else None
    s.keep()


# ---------------------------------------------------------------------------
# P32: long programs over shared values; every live value is checked after
# every call and earlier calls are repeated
REPEATED = ['P01', 'P02', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P17', 'P18', 'P24', 'P25']


def P32(s, rng, sid, tier):
  kind = sid % 4
  if kind == 2:
    s.twice = True
    GEN[REPEATED[sid // 4 % len(REPEATED)]](s, rng, 1 + rng.randrange(50), 'quick')
    return
  s.twice = sid % 8 == 1
  if kind == 3:
    rid = s.ctx.zp(rng.choice([17, 97, 257, 769]))
  else:
    rid = pick_field(s, rng, maxp=12289)
  ring = s.reg.rings[rid]
  s.ctx.poly(rid)
  n = rng.randint(1, 3)
  s.ctx.multi(rid, n)
  E = [s.elem(rid, raw_elem(rng, ring), 'e%d' % i) for i in range(3)]
  Pn = [mk_poly(s, rid, raw_poly(rng, ring, 4), 'f%d' % i) for i in range(3)]
  M = [mk_multi(s, rid, n, raw_multi(rng, ring, n, 3, 2), 'm%d' % i) for i in range(2)]
  k = min(4, fsize(ring))
  xs = s.lst([s.elem(rid, a, 'x%d' % i) for i, a in enumerate(distinct(rng, ring, k))], 'xs')
  ys = s.lst([s.elem(rid, raw_elem(rng, ring), 'y%d' % i) for i in range(k)], 'ys')
  s.drop(*(['x%d' % i for i in range(k)] + ['y%d' % i for i in range(k)]))
  at = s.lst([Ref('e%d' % (i % 3)) for i in range(n)], 'at')
  w = None
  q = fsize(ring) - 1
  orders = [o for o in range(2, 17) if q % o == 0 and (o % 2 == 0 or o < 8)]
  if orders:
    w = root_of_order(s, rng, rid, rng.choice(orders))
  history = []

  def call(name, *a, d='', **P):
    s.do(name, *a, d=d, **P)
    history.append((name, a, P))
  for _ in range(16):
    op = rng.choice(['ebin', 'pbin', 'mbin', 'div', 'call', 'mcall', 'interp', 'zpoly', 'minv', 'fft', 'invfft', 'newp', 'newm', 'alias',
                     'make', 'repeat', 'neg', 'pow', 'gcd', 'mulpolys', 'interp2', 'interp4', 'minterp4'])
    if op == 'ebin':
      call(rng.choice(['add', 'sub', 'mul', 'eq']), rng.choice(E), rng.choice(E))
    elif op == 'pbin':
      call(rng.choice(['add', 'sub', 'mul', 'eq']), rng.choice(Pn), rng.choice(Pn))
    elif op == 'mbin':
      call(rng.choice(['add', 'sub', 'mul', 'eq']), rng.choice(M), rng.choice(M))
    elif op == 'div':
      call(rng.choice(['div', 'mod']), rng.choice(Pn), rng.choice(Pn))
    elif op == 'call':
      f, x = rng.choice(Pn), rng.choice(E + Pn[:1])
      if x.name[0] == 'e' or composable(s, rid, f):
        call('call', f, x)
    elif op == 'mcall':
      call('mcall', rng.choice(M), at)
    elif op == 'interp':
      call('interp', xs, ys, d='g', r=rid)
    elif op == 'interp2' and k >= 2:
      call('interp2', xs, ys, r=rid) if k == 2 else None
    elif op == 'interp4' and k == 4:
      call('interp4', xs, ys, d='g', r=rid)
    elif op == 'minterp4' and k == 4:
      s.lst([xs, xs], 'X')
      s.lst([ys, ys], 'Y')
      call('minterp4', Ref('X'), Ref('Y'), r=rid)
    elif op == 'zpoly':
      call('zpoly', ys, d='g', r=rid)
    elif op == 'minv':
      call('multiinv', ys, d='iv', r=rid)
    elif op == 'fft' and w:
      n_ = len(pow_list(s, w, rid))
      f = [x for x in Pn if x.name in s.regs and len(s.regs[x.name].coefficients) <= n_]
      if f:
        call('fft', w, rng.choice(f), d='v', r=rid)
    elif op == 'invfft' and w:
      if len(pow_list(s, w, rid)) >= k:
        call('invfft', w, ys, d='g', r=rid)
    elif op == 'mulpolys' and w:
      if len(pow_list(s, w, rid)) >= 2 * k:
        call('mulpolys', xs, ys, w, r=rid)
    elif op == 'newp':       # copies share structure
      call('newp', rng.choice(Pn), d='cp', r=rid)
    elif op == 'newm':
      call('newm', rng.choice(M), d='cm', r=rid, n=n)
    elif op == 'alias':
      call('newp', ys, d='cp', r=rid)
      call('add', Ref('cp'), rng.choice(Pn)) if 'cp' in s.regs else None
    elif op == 'make':
      call('makemulti', rng.choice(Pn), d='cm', r=rid, n=n, i=rng.randrange(n))
    elif op == 'neg':
      call('neg', rng.choice(E + Pn + M))
    elif op == 'pow':
      call('pow', rng.choice(E + Pn), rng.randrange(4))
    elif op == 'gcd':
      call('gcdp', rng.choice(Pn), rng.choice(Pn))
    elif op == 'repeat' and history:
      nm, a, P = rng.choice(history)
      if all(not isinstance(r, Ref) or r.name in s.regs for r in a):
        s.do(nm, *a, **P)
  s.keep()


def pow_list(s, w, rid):
  x = s.regs.get(w.name)
  one = s.ctx.field(rid)(1)
  out, y = [one], x
  while not (y == one) and len(out) < 5000:
    out.append(y)
    y = y * x
  return out


GEN = dict(P01=P01, P02=P02, P04=P04, P05=P05, P06=P06, P07=P07, P08=P08, P09=P09, P10=P10, P17=P17, P18=P18, P24=P24, P25=P25, P32=P32)
COUNT = {   # sessions: quick, thorough
    'P01': (70, 400), 'P02': (90, 500), 'P04': (120, 1500), 'P05': (90, 1000), 'P06': (60, 600), 'P07': (70, 400), 'P08': (80, 800),
    'P09': (30, 120), 'P10': (68, 340), 'P17': (60, 400), 'P18': (70, 500), 'P24': (80, 800), 'P25': (60, 600), 'P32': (120, 1500)}


def sessions(pid, tier):
  return list(range(COUNT[pid][0 if tier == 'quick' else 1]))


def make(pid, tier, sid, rng, out):
  return AlgSession(sid, rng, out)


def run(s, pid, tier, sid, rng):
  GEN[pid](s, rng, sid, tier)
