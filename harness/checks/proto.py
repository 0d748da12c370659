"""Sessions for the protocol properties (P11-P16, P20-P23)."""
import copy, itertools
import pymath as pm
import protoref as pr
from core import Ref, Session, Registry, limbs, watched, kept
from checks.alg import Ctx, zp_id, STARKP, raw_elem

PRIMES = [257, 769, 7681, 12289, 13313, 18433, 40961, 65537, 2**31 - 2**27 + 1]


def el_of(p):
  if p <= 46340:
    return int
  n = len(limbs(p))
  return lambda v: limbs(v, n)


def good_prime(p, prec):
  return pm.is_prime(p) and (p - 1) % prec == 0 and pow(7, (p - 1) // 2, p) != 1


def build_ops():
  O = {}

  def reg(f):
    O[f.__name__.rstrip('_')] = f
    return f

  def c(P):
    return P['_ctx']

  @reg
  def newe(P, a): return c(P).field(P['r'])(a)
  @reg
  def newp(P, a): return c(P).poly(P['r'])(a)
  @reg
  def newm(P, a): return c(P).multi(P['r'], P['n'])({tuple(e): v for e, v in a})
  @reg
  def list_(P, *a): return list(a)
  @reg
  def pick(P, a): return a[P['i']]
  @reg
  def mcall(P, f, xs): return f(xs)
  @reg
  def commit(P, leaves):
    from starks.merkle_tree import merkelize, mk_branch
    t = merkelize(leaves)
    return [t[1], [mk_branch(t, i) for i in range(len(leaves))]]
  @reg
  def verifyb(P, com, root, i, br):
    from starks.merkle_tree import verify_branch
    return verify_branch(root, i, br, output_as_int=True) if P['asint'] else verify_branch(root, i, br)
  @reg
  def joint(P, evs):
    from starks.merkle_tree import merkelize_polynomial_evaluations as m, mk_branch, verify_branch
    t = m(P['dims'], evs)
    return [verify_branch(t[1], i, mk_branch(t, i)) for i in range(len(evs[0]))]
  @reg
  def unpack(P, leaf):
    from starks.merkle_tree import unpack_merkle_leaf
    return list(unpack_merkle_leaf(leaf, P['dims'], P['num']))
  @reg
  def compb(P, x):
    from starks.compression import compress_branches, decompress_branches, bin_length
    o = compress_branches(x)
    return [o, decompress_branches(o), bin_length(o)]
  @reg
  def compf(P, x):
    from starks.compression import compress_fri, decompress_fri, bin_length
    o = compress_fri(x)
    return [o, decompress_fri(o), bin_length(o)]
  @reg
  def indices(P, ent):
    from starks.utils import get_pseudorandom_indices as g
    if P['e'] == 0 and P.get('_default'):
      return g(ent, P['m'], P['count'])
    return g(ent, P['m'], P['count'], exclude_multiples_of=P['e'])
  @reg
  def mimc(P, x, ks):
    from starks.utils import mimc as f
    return f(x, P['steps'], ks)
  @reg
  def cycle(P, w):
    from starks.utils import get_power_cycle
    return get_power_cycle(w, c(P).field(P['r']))
  @reg
  def xis(P):
    from starks.utils import generate_Xi_s
    return generate_Xi_s(c(P).field(P['r']), P['n'])
  @reg
  def pow2(P, x):
    from starks.utils import is_a_power_of_2
    return is_a_power_of_2(x)
  @reg
  def trace(P, inp, fs):
    from starks.air import get_computational_trace as g
    t, o = g(inp, P['steps'], len(fs), fs)
    return [t, o]
  @reg
  def air(P, inp, fs):
    from starks.air import AIR
    a = AIR(c(P).field(P['r']), len(fs), inp, P['steps'], fs, 8)
    return [a.computational_trace, a.output, a.generate_witness(), [list(b) for b in a.B], a.Polys, bool(a.C)]
  @reg
  def circuit(P, inp, fs, bad):
    from starks.air import AIR
    a = AIR(c(P).field(P['r']), len(fs), inp, P['steps'], fs, 8)
    a.computational_trace = bad
    return bool(a.generate_monotone_circuit(a.Polys))
  @reg
  def ctrace(P, g, wit):
    from starks.stark import construct_trace_polynomials as f
    return f(wit, c(P).field(P['r']), g)
  @reg
  def cconstraint(P, fs, tps, g):
    from starks.stark import construct_constraint_polynomials as f
    return f(fs, tps, c(P).field(P['r']), g, len(fs))
  @reg
  def cremainder(P, cps, last):
    from starks.stark import construct_remainder_polynomials as f
    return f(cps, c(P).field(P['r']), P['steps'], last)
  @reg
  def cboundary(P, tps, wit, inp, last):
    from starks.stark import construct_boundary_polynomials as f
    return f(tps, wit, [(0, j, x) for j, x in enumerate(inp)], c(P).field(P['r']), last, len(tps))
  @reg
  def ks(P, root):
    from starks.stark import get_pseudorandom_ks as f
    return list(f(root, P['num']))
  @reg
  def cjoint(P, root, tps, dps, bps, g):
    from starks.stark import compute_pseudorandom_linear_combination as f
    return f(root, tps, dps, bps, c(P).field(P['r']), g, P['prec'], P['steps'], len(tps))

  def stark(P, fs):
    from starks.stark import STARK
    if P['samples'] == 80 and P.get('_default'):
      return kept('', STARK, c(P).field(P['r']), P['steps'], P['ext'], len(fs), fs)
    return kept('', STARK, c(P).field(P['r']), P['steps'], P['ext'], len(fs), fs, P['samples'])

  @reg
  def prove(P, fs, wit, inp):
    P['has'] = False
    bd = [(0, j, x) for j, x in enumerate(inp)]
    proof = stark(P, fs).mk_proof(wit, bd)
    P['_c']['deg'] = max(f.degree() for f in fs)
    P['prf'] = pr.stark_rec(proof, P['_c'], P['_el'])
    P['_c']['proof'] = proof
    P['has'] = True
    return stark(P, fs).verify_proof(watched(proof, True), wit, bd) is True
  @reg
  def sverify(P, fs, inp, out):
    bd = [(0, j, x) for j, x in enumerate(inp)]
    try:
      return stark(P, fs).verify_proof(watched(copy.deepcopy(P['_proof']), True), [[x] for x in out], bd) is True
    except Exception:
      return False

  def fri(P):
    from starks.fri import SmoothSubgroupFRI
    return kept('', SmoothSubgroupFRI, c(P).field(P['r']))

  def kw(P):
    k = {}
    if P['e'] or not P.get('_default'):
      k['exclude_multiples_of'] = P['e']
    if P['samples'] != 40 or not P.get('_default'):
      k['fri_spot_check_security_factor'] = P['samples']
    return k

  @reg
  def fprove(P, f, g):
    from starks.merkle_tree import merkelize
    P['has'] = False
    proof = fri(P).generate_proximity_proof(f, g, P['m'], **kw(P))
    p = P['_p']
    n = P['_n']
    vals = [pr.ev([int(x) for x in f.coefficients], x, p) for x in pr.powers(int(g), p)]
    root = pr.Tree([pr.enc(v) for v in vals]).root
    P['prf'] = fri_record(proof, root, int(g), n, P['m'], P['e'], P['samples'], p)
    P['_box'][:] = [proof, root]
    P['has'] = True
    try:
      return fri(P).verify_proximity_proof(watched(proof, True), root, g, P['m'], **kw(P)) is True
    except Exception:
      return False
  @reg
  def fverify(P, g):
    try:
      return fri(P).verify_proximity_proof(watched(copy.deepcopy(P['_proof']), True), P['_root'], g, P['m'], **kw(P)) is True
    except Exception:
      return False
  return O


def fri_record(proof, root, g, n, m, e, samples, p):
  I = pr.Intern()
  rec = {'root': I.show(root)}
  rec['fri'] = pr.fri_rec(I, proof, root, g, n, m, e, samples, p, el_of(p))
  rec['bytes'] = I.table()
  return rec


OPS = build_ops()


class ProtoSession(Session):
  MODULE = 'ProtoTraceMC'

  def __init__(self, sid, rng, out):
    Session.__init__(self, sid, rng, Registry(), out, OPS)
    self.ctx = Ctx(self)
    self.n = 0

  def do(self, name, *args, d='', **P):
    P['_ctx'] = self.ctx
    return self.op(name, *args, d=d, P=P)

  def fresh(self, pre='x'):
    self.n += 1
    return '%s%d' % (pre, self.n)

  def elem(self, rid, raw):
    n = self.fresh('e')
    self.do('newe', raw, d=n, r=rid)
    return Ref(n)

  def keep(self, *refs):
    ks = set(r.name for r in refs if isinstance(r, Ref))
    for k in list(self.regs):
      if k not in ks:
        del self.regs[k]


# ---------------------------------------------------------------------------
# P11
def rand_bytes(rng, n):
  return bytes(rng.getrandbits(8) for _ in range(n))


def leaves_of(s, rng, n, kind):
  if kind == 'int':
    pool = [rng.choice([0, 1, rng.getrandbits(8), rng.getrandbits(64), rng.getrandbits(255), 2**256 - 1]) for _ in range(max(1, n - rng.randrange(n)))]
    return [rng.choice(pool) for _ in range(n)]
  if kind == 'zero':         # leaves whose digests start with a zero byte
    out = []
    while len(out) < n:
      v = rng.getrandbits(rng.choice([16, 64, 250]))
      if pr.HL(pr.enc(v))[0] == 0:
        out.append(v)
    return out
  if kind == 'idx':
    return list(range(n))
  if kind == 'bytes':
    ln = rng.choice([1, 32, 32, 64, 96])
    pool = [rand_bytes(rng, ln) for _ in range(n)] + [b'\0' * ln]
    if rng.random() < .4:      # encodings of different lengths
      pool += [rand_bytes(rng, rng.randrange(70)) for _ in range(n)] + [b'']
    return [rng.choice(pool) for _ in range(n)]
  if kind == 'mod':
    p = rng.choice([257, 7, STARKP])
    rid = s.ctx.zp(p)
    return [s.elem(rid, rng.choice([0, 1, rng.randrange(p), rng.randrange(p)])) for _ in range(n)]
  if kind == 'gf':
    rid = s.ctx.gf(2, 3, [1, 1, 0, 1])
    return [s.elem(rid, [rng.randrange(2) for _ in range(3)]) for _ in range(n)]


def P11(s, rng, sid, tier):
  n = [4, 8, 16, 32, 64, 4, 8, 16][sid % 8] if tier == 'quick' else rng.choice([4, 8, 16, 32, 64, 128])
  kind = ['int', 'bytes', 'mod', 'idx', 'gf', 'zero', 'mod'][sid % 7]
  large = sid % 16 == 15
  if large:
    n = 256 if tier == 'quick' or sid % 32 == 15 else 512
  leaves = leaves_of(s, rng, n, kind)
  com = s.do('commit', list(leaves), d='com')
  if com is None:
    return
  s.keep(Ref('com'))
  root, brs = com[0], com[1]
  C = Ref('com')

  def v(root, i, br):
    s.do('verifyb', C, root, i, br, asint=rng.random() < .5)
  for i in range(n) if not large else [0, n - 1, n // 2, n // 4 + 1] + rng.sample(range(n), 12):
    v(root, i, list(brs[i]))
  heap = [bytes(brs[i][0]) for i in sorted(range(n), key=lambda i: pr.slot(i, n))]
  for _ in range(20 if large else 60 if tier == 'quick' else 150):
    i = rng.randrange(n)
    br = list(brs[i])
    t = rng.choice(['leaf', 'sib', 'sib', 'root', 'pos', 'pos', 'swap', 'mix', 'inner', 'shift', 'shift', 'shift', 'short', 'out'])
    if t == 'leaf':
      br[0] = flip(rng, br[0])
    elif t == 'sib':
      k = rng.randrange(1, len(br))
      br[k] = flip(rng, br[k])
    elif t == 'root':
      v(flip(rng, root), i, br)
      continue
    elif t == 'pos':
      j = rng.choice([j for j in range(n) if j != i])
      if brs[j][0] == brs[i][0]:
        continue
      v(root, j, br)
      continue
    elif t == 'swap':
      a, b = rng.sample(range(len(br)), 2)
      br[a], br[b] = br[b], br[a]
    elif t == 'mix':
      j = rng.randrange(n)
      k = rng.randrange(len(br))
      br[k] = brs[j][k]
    elif t == 'inner':
      br[0] = br[0] + b'\0'
    elif t == 'shift':
      if not shift(rng, br):
        continue
    elif t == 'short':       # open a node (or what it digests) as the leaf of a smaller tree
      m = n // 2
      if m < 4:
        continue
      form = rng.randrange(5)
      up = []
      for a in range(m):
        l, r = heap[2 * a], heap[2 * a + 1]
        pre = [l + r, pr.HL(l) + pr.HL(r), (pr.HL(l) + pr.HL(r))[1:], pr.HN(pr.HL(l), pr.HL(r)), pr.H(l + r)][form]
        up.append(pre)
      a = pr.slot(i, n) // 2
      i = next(j for j in range(m) if pr.slot(j, m) == a)
      br = [up[a], up[a ^ 1]] + br[3:]
    elif t == 'out':
      for j in (i + n, i - n, i + 2 * n, i + n // 4, i + n - 4, n + rng.randrange(4 * n), -1 - rng.randrange(n)):
        if not 0 <= j < n:
          v(root, j, br)
      continue
    v(root, i, br)


def shift(rng, br):
  """Move bytes between the leaf and its sibling."""
  a, b = br[0], br[1]
  ks = [k for k in (1, 2, 16, 31, 32, 64) if k <= max(len(a), len(b))]
  if not ks:
    return False
  k = rng.choice(ks)
  t = rng.randrange(4)
  br[0], br[1] = [(a + b[:k], b[k:]), (a[:-k], a[-k:] + b), (b[-k:] + a, b[:-k]), (a[k:], b + a[:k])][t]
  return (br[0], br[1]) != (a, b)


def flip(rng, b):
  b = bytearray(b)
  if not b:
    return b'\1'
  k = rng.randrange(len(b))
  b[k] ^= 1 << rng.randrange(8)
  return bytes(b)


# ---------------------------------------------------------------------------
# P12
def P12(s, rng, sid, tier):
  p = rng.choice([257, 7, 40961, STARKP, 2**127 - 1])
  rid = s.ctx.zp(p)
  for _ in range(3):
    n = rng.choice([4, 8, 16])
    dims, num = rng.choice([(1, 1), (1, 3), (2, 3), (3, 3), (2, 1), (3, 2), (4, 2), (1, 5)])
    F = s.ctx.field(rid)
    pool = [0, 1, p - 1, 255, 256, rng.randrange(p), rng.randrange(p)]
    evs = [[F(rng.choice(pool)) for _ in range(n)] for _ in range(dims * num)]
    r = s.do('joint', evs, dims=dims)
    for leaf in (r or [])[:6]:
      s.do('unpack', leaf, dims=dims, num=num, k=dims * num)


# ---------------------------------------------------------------------------
# P13
def P13(s, rng, sid, tier):
  pool = [rand_bytes(rng, 32) for _ in range(rng.choice([1, 2, 5, 30]))]
  pool += [b'\0' * 32, b'', b'\1', rand_bytes(rng, 3), rand_bytes(rng, 96), rand_bytes(rng, 64), b'---', b'/////', b'\0\0\0']

  def item():
    return rng.choice(pool) if rng.random() < .7 else rand_bytes(rng, rng.choice([32, 32, 32, 1, 4, 5, 96]))
  seps = (b'----', b'++++', b'====', b'////')

  def safe():
    while True:
      x = item()
      if len(x) != 2 and x not in seps:
        return x
  for _ in range(4):
    x = [[safe() for _ in range(rng.choice([0, 1, 2, 5, 9]))] for _ in range(rng.choice([0, 1, 2, 3, 12]))]
    s.do('compb', x)
    f = []
    for _ in range(rng.choice([0, 1, 2, 4])):
      f.append([safe(), [[[safe() for _ in range(rng.choice([0, 1, 3, 6]))] for _ in range(rng.choice([0, 1, 5]))] for _ in range(rng.choice([0, 1, 2, 5]))]])
    f.append([safe() for _ in range(rng.choice([0, 1, 4, 16]))])
    s.do('compf', f)
  if sid % 8 == 0:          # positions needing both bytes of a back-reference
    k = rng.choice([300, 700])
    xs = [rand_bytes(rng, 32) for _ in range(k)]
    s.do('compb', [xs[:200], xs[200:], [rng.choice(xs) for _ in range(60)], [xs[255], xs[256], xs[0], xs[-1]]])
  if sid == 2 or sid % 50 == 10:      # long proofs: back-references of every size
    k = 36000 if sid == 2 else rng.choice([4500, 9000, 64000])
    xs = [i.to_bytes(3, 'big') for i in range(k)]
    cut = rng.randrange(1, k)
    s.do('compb', [xs[:cut], xs[cut:], [xs[i] for i in (k - 1, k - 2, 32768 % k, 4096, 255, 256, 257, 16384 % k, 8192 % k)] + [rng.choice(xs) for _ in range(200)]])
  if sid % 8 == 1:          # real proofs
    p, n = 257, 128
    g = pow(3, (p - 1) // n, p)
    f = [rng.randrange(p) for _ in range(32)]
    vals = [pr.ev(f, x, p) for x in pr.powers(g, p)]
    prf = pr.fri_prove(vals, g, 32, rng.choice([0, 4]), 12, p)
    s.do('compf', prf)
    t = pr.Tree([pr.enc(v) for v in vals])
    s.do('compb', [t.branch(rng.randrange(n)) for _ in range(25)])


# ---------------------------------------------------------------------------
# P14
def do_indices(s, ent, m, count, e, **k):
  data, h = pr.extend(ent, count)
  s.do('indices', ent, m=m, count=count, e=e, data=list(data), h=h, **k)


def P14(s, rng, sid, tier):
  if sid % 4 == 0:       # every residue occurs: entropy words run over all residues
    m, e = rng.choice([(8, 4), (16, 0), (32, 8), (12, 4), (10, 3), (9, 2), (64, 8), (7, 4), (4, 8), (64, 16)])
    ws = list(range(2 * m)) + [2**32 - 1, 2**31, 2**31 - 1, 2**24]
    ent = b''.join(w.to_bytes(4, 'big') for w in ws)
    do_indices(s, ent, m, len(ws), e)
    do_indices(s, ent, m, len(ws) // 2, e)
  for _ in range(14):
    ent = rand_bytes(rng, rng.choice([32, 32, 32, 4, 1, 33, 64, 100, 31]))
    m = rng.choice([4, 8, 16, 64, 256, 4096, 2**23, 2**24 - 1, rng.randrange(2, 3000)])
    e = rng.choice([0, 0, 2, 3, 4, 8, 16, 64])
    if e and m - (m + e - 1) // e < 1:
      e = 0
    if m > 3000 and e:
      m = rng.choice([1024, 2048])
    if m > 3000:
      m = rng.choice([m, 3000])
    count = rng.choice([1, 2, 8, 9, 16, 17, 40, 80])
    do_indices(s, ent, m, count, e, _default=rng.random() < .5)
  if sid % 4 == 1:       # many positions
    ent = rand_bytes(rng, rng.choice([32, 33, 4, 31]))
    do_indices(s, ent, rng.choice([256, 1024, 3000, 2**20]), rng.choice([130, 300, 513, 1025]), rng.choice([0, 2, 8]))


# ---------------------------------------------------------------------------
# P15
def P15(s, rng, sid, tier):
  s.reg.rings['MIMC'] = {'k': 'big', 'p': limbs(STARKP)}
  k = sid % 4
  if k == 0:
    for _ in range(4):
      x = rng.choice([0, 1, 2, rng.getrandbits(255), STARKP - 1, rng.getrandbits(20)])
      ks = [rng.choice([0, 1, i**7 ^ 42, rng.getrandbits(255), rng.getrandbits(10)]) for i in range(rng.choice([1, 2, 3, 7, 64]))]
      s.do('mimc', x, ks, steps=rng.choice([1, 2, 3, 5, 9, 12]))
    ks = [rng.choice([0, 1, i**7 ^ 42, rng.getrandbits(255)]) for i in range(rng.choice([3, 16, 64, 100]))]
    s.do('mimc', rng.getrandbits(255), ks, steps=rng.choice([60, 64, 65, 100, 129, 200]))
  elif k == 1:
    for x in range(-3, 66):
      s.do('pow2', x)
    for _ in range(30):
      e = rng.randrange(1, 260)
      s.do('pow2', rng.choice([1 << e, (1 << e) + 1, (1 << e) - 1, 3 << e, rng.getrandbits(e), (1 << e) + (1 << (e // 2))]))
  elif k == 2:
    for _ in range(4):
      w = rng.randrange(1, 6)
      rid = s.ctx.zp(rng.choice([2, 3, 7, 257, STARKP])) if rng.random() < .6 else s.ctx.gf(*rng.choice([(2, 3, [1, 1, 0, 1]), (3, 2, [2, 1, 1])]))
      s.ctx.multi(rid, w)
      s.do('xis', r=rid, n=w)
  else:
    p = rng.choice([3, 5, 7, 31, 97, 257, 769])
    rid = s.ctx.zp(p)
    for x in sorted(set([1, p - 1] + [rng.randrange(1, p) for _ in range(5)])):
      w = s.elem(rid, x)
      s.do('cycle', w, r=rid)
      s.keep()
    rid = s.ctx.gf(*rng.choice([(2, 3, [1, 1, 0, 1]), (3, 2, [2, 1, 1]), (2, 4, [1, 1, 0, 0, 1]), (5, 2, [2, 1, 1])]))
    for _ in range(3):
      raw = raw_elem(rng, s.reg.rings[rid])
      if any(raw):
        w = s.elem(rid, raw)
        s.do('cycle', w, r=rid)
        s.keep()


# ---------------------------------------------------------------------------
# step polynomials
def rand_steps(rng, p, width, deg):
  """exponent/coefficient pairs of `width` step polynomials, one of full degree"""
  fs = []
  for j in range(width):
    d = deg if j == 0 else rng.randrange(1, deg + 1)
    t = {}
    e = [0] * width
    for _ in range(d):
      e[rng.randrange(width)] += 1
    t[tuple(e)] = rng.choice([1, 1, rng.randrange(1, p)])
    for _ in range(rng.randrange(0, 3)):
      e = [0] * width
      for _ in range(rng.randrange(0, d + 1)):
        e[rng.randrange(width)] += 1
      t[tuple(e)] = rng.choice([1, p - 1, rng.randrange(1, p)])
    fs.append(t)
  if width > 1:
    rng.shuffle(fs)
  return fs


def mev(f, st, p):
  t = 0
  for e, c in f.items():
    m = c
    for x, k in zip(st, e):
      m = m * pow(x, k, p) % p
    t += m
  return t % p


def run_steps(fs, inp, steps, p):
  tr = [list(inp)]
  for _ in range(steps - 1):
    tr.append([mev(f, tr[-1], p) for f in fs])
  return tr


def raw_gf_trace(rng, ring, width):
  return None


def P16(s, rng, sid, tier):
  gf = sid % 3 == 2
  if gf:
    rid = s.ctx.gf(*rng.choice([(2, 3, [1, 1, 0, 1]), (3, 2, [2, 1, 1]), (2, 4, [1, 1, 0, 0, 1])]))
  else:
    rid = s.ctx.zp(rng.choice([2, 3, 7, 257, 769, 40961, 65537, STARKP]))
  ring = s.reg.rings[rid]
  big = ring['k'] == 'big'
  air = sid % 4 == 1 and not big
  w = rng.choice([1, 1, 2, 3])
  s.ctx.multi(rid, w)
  s.ctx.multi(rid, 2 * w)
  p = s.ctx.field(rid).p
  fs = []
  for j, f in enumerate(rand_steps(rng, p, w, rng.choice([1, 2, 3]))):
    pairs = []
    for e, c in f.items():
      pairs.append([list(e), (raw_elem(rng, ring) or [1]) if gf else c])
    if gf:
      pairs = [[e, c] for e, c in pairs]
      # coefficients given as elements
      refs = []
      for e, c in pairs:
        refs.append([e, s.elem(rid, c)])
      pairs = refs
    s.do('newm', pairs, d='f%d' % j, r=rid, n=w)
    fs.append(Ref('f%d' % j))
  inp = [s.elem(rid, rng.choice([0, 1]) if not gf and rng.random() < .4 else raw_elem(rng, ring)) for _ in range(w)]
  s.do('list', *inp, d='inp')
  s.do('list', *fs, d='fs')
  steps = rng.choice([1, 2, 3, 8, 16, 33, 100, 257]) if not big else rng.choice([1, 2, 5])
  r = s.do('trace', Ref('inp'), Ref('fs'), d='', r=rid, steps=steps)
  if not gf and rng.random() < .5:
    # plain integers as input
    s.do('trace', [rng.randrange(-3, 40) for _ in range(w)], Ref('fs'), r=rid, steps=max(2, min(steps, 6)))
  if air:
    a = s.do('air', Ref('inp'), Ref('fs'), r=rid, steps=511)
    if a is None:
      return
    F = s.ctx.field(rid)
    for _ in range(3):          # the circuit on traces with a broken row
      bad = [list(r) for r in a[0]]
      if rng.random() < .8:
        i, k = rng.choice([0, 1, 255, 509, 510, rng.randrange(511)]), rng.randrange(w)
        bad[i][k] = bad[i][k] + F(rng.randrange(1, p))
      s.do('circuit', Ref('inp'), Ref('fs'), bad, r=rid, steps=511)
    for j in range(w):
      s.regs['C%d' % j] = a[4][j]
    s.emit({'op': 'init', 'a': [], 'd': '', 'r': {'t': 'none'}})      # resynchronise: the Polys were judged above
    for _ in range(8):
      i = rng.randrange(510)
      st, nx = list(a[0][i]), list(a[0][i + 1])
      if rng.random() < .6:
        k = rng.randrange(w)
        nx[k] = nx[k] + F(1 if rng.random() < .5 else rng.randrange(1, p))
      for j in range(w):
        s.do('mcall', Ref('C%d' % j), st + nx)


# ---------------------------------------------------------------------------
# STARK instances
class Inst(object):
  pass


def stark_instance(s, rng, tier, big=False, small=False, large=False):
  I = Inst()
  while True:
    steps = rng.choice([4, 8, 8, 16, 32]) if not big else rng.choice([4, 8])
    ext = rng.choice([2, 4, 8, 8]) if not big else rng.choice([4, 8])
    deg = rng.choice([1, 2, 2, 3, 4]) if not big else rng.choice([2, 3])
    if small:
      steps, deg = rng.choice([(8, 3), (16, 2), (32, 1), (8, 4)]), None
      steps, deg = steps
      ext = rng.choice([4, 8])
    if large:                # long computations: more foldings
      steps, ext, deg = rng.choice([(64, 4, 3), (64, 8, 6), (128, 4, 2), (128, 4, 3), (64, 16, 7)])
    if deg > ext or steps * deg >= steps * ext or steps * ext > (1024 if large else 256):
      continue
    prec = steps * ext
    ps = [q for q in ([STARKP] if big == 'stark' else PRIMES[7:] if big else PRIMES[1:7] if large else PRIMES[:7]) if good_prime(q, prec)]
    if ps:
      break
  p = rng.choice(ps)
  I.steps, I.ext, I.deg, I.p, I.prec = steps, ext, deg, p, prec
  I.width = rng.choice([1, 1, 2, 2, 3]) if not big else rng.choice([1, 2])
  I.samples = rng.choice([1, 2, 5, 8, 8, 12]) if not big else rng.choice([1, 2])
  I.rid = s.ctx.zp(p)
  s.ctx.poly(I.rid)
  s.ctx.multi(I.rid, I.width)
  I.el = el_of(p)
  I.g = pow(7, (p - 1) // prec, p)
  I.g1 = pow(I.g, ext, p)
  I.last = pow(I.g, (steps - 1) * ext, p)
  I.fs = rand_steps(rng, p, I.width, deg)
  I.inp = [rng.choice([0, 1, p - 1, rng.randrange(p), rng.randrange(p)]) for _ in range(I.width)]
  if rng.random() < .15:
    I.inp = [0] * I.width
  I.tr = run_steps(I.fs, I.inp, steps, p)
  I.wit = [[I.tr[i][j] for i in range(steps)] for j in range(I.width)]
  I.c = dict(p=p, g=I.g, steps=steps, ext=ext, width=I.width, samples=I.samples, deg=max(max(sum(e) for e in f) for f in I.fs))
  for j, f in enumerate(I.fs):
    s.do('newm', [[list(e), c] for e, c in f.items()], d='f%d' % j, r=I.rid, n=I.width)
  s.do('list', *[Ref('f%d' % j) for j in range(I.width)], d='fs')
  s.keep(Ref('fs'))
  return I


def felems(s, I, xs):
  F = s.ctx.field(I.rid)
  return [F(x) for x in xs]


def prove(s, I, wit=None, inp=None, default=False):
  wit = wit or I.wit
  inp = inp or I.inp
  F = s.ctx.field(I.rid)
  samples = 80 if default else I.samples
  cc = dict(I.c, samples=samples)
  s.do('prove', Ref('fs'), [felems(s, I, w) for w in wit], felems(s, I, inp), r=I.rid, steps=I.steps, ext=I.ext,
       samples=samples, g=I.el(I.g), malformed=False, _c=cc, _el=I.el, _default=default)
  return cc.get('proof')


def sverify(s, I, proof, inp=None, out=None, c=None):
  inp = I.inp if inp is None else inp
  out = [w[-1] for w in I.wit] if out is None else out
  c = c or I.c
  try:
    prf, bad = pr.stark_rec(proof, c, I.el), False
  except Exception:
    prf, bad = 0, True
  s.do('sverify', Ref('fs'), felems(s, I, inp), felems(s, I, out), r=I.rid, steps=c['steps'], ext=c['ext'], samples=c['samples'],
       g=I.el(c['g']), malformed=bad, prf=prf, _proof=proof)


def P20(s, rng, sid, tier):
  n = 3 if tier == 'quick' else 5
  if sid % 8 == 7:
    I = stark_instance(s, rng, tier, big='stark' if sid % 16 == 7 else True)
    prove(s, I)
    return
  if sid % 12 == 4:
    I = stark_instance(s, rng, tier, large=True)
    I.samples = I.c['samples'] = min(I.samples, 5)
    prove(s, I)
    return
  for k in range(n):
    I = stark_instance(s, rng, tier)
    prove(s, I, default=(k == 0 and sid % 6 == 0))


# vectors over the evaluation domain
def domain(I):
  return pr.powers(I.g, I.p)


def components(I, wit=None, out=None, inp=None):
  """(P, D, B) evaluation vectors; D and B computed pointwise where the
  denominators do not vanish, arbitrary (0) elsewhere."""
  p = I.p
  wit = wit or I.wit
  inp = inp or I.inp
  out = out or [w[-1] for w in wit]
  xs = domain(I)
  tx = pr.powers(I.g1, p)
  polys = [pr.interp(tx, w, p) for w in wit]
  P = [[pr.ev(f, x, p) for x in xs] for f in polys]
  D, B = [], []
  for j in range(I.width):
    d, b = [], []
    for i, x in enumerate(xs):
      st = [P[k][i] for k in range(I.width)]
      cst = (P[j][(i + I.ext) % I.prec] - mev(I.fs[j], st, p)) % p
      z = (pow(x, I.steps, p) - 1) % p
      if z:
        d.append(cst * (x - I.last) * pow(z, -1, p) % p)
      else:
        d.append(None)
      z2 = (x - 1) * (x - I.last) % p
      it = (inp[j] * (I.last - x) + out[j] * (x - 1)) * pow(I.last - 1, -1, p) % p
      b.append((P[j][i] - it) * pow(z2, -1, p) % p if z2 else None)
    D.append(d)
    B.append(b)
  return P, D, B


def lowdeg_fill(I, vec):
  """Replace the undefined entries so that the vector is a low-degree one."""
  p = I.p
  xs = domain(I)
  known = [i for i, v in enumerate(vec) if v is not None]
  f = pr.interp([xs[i] for i in known], [vec[i] for i in known], p)
  return [pr.ev(f, x, p) for x in xs]


def floor_quotient(I, wit):
  """D as the floor quotient of the constraint polynomial (low degree even if
  the trace is invalid)."""
  p = I.p
  xs = domain(I)
  tx = pr.powers(I.g1, p)
  polys = [pr.interp(tx, w, p) for w in wit]
  zs = [1]
  for i in range(I.steps - 1):
    r = pow(I.g1, i, p)
    zs = pm.pmul(zs, [(-r) % p, 1], p)
  D = []
  for j in range(I.width):
    vals = []
    for i, x in enumerate(xs):
      st = [pr.ev(f, x, p) for f in polys]
      vals.append((pr.ev(polys[j], x * I.g1 % p, p) - mev(I.fs[j], st, p)) % p)
    cp = pr.interp(xs, vals, p)
    q = []
    a = list(cp)
    while len(a) >= len(zs):
      c = a[-1]
      sh = len(a) - len(zs)
      q.append((sh, c))
      for k, y in enumerate(zs):
        a[sh + k] = (a[sh + k] - c * y) % p
      a = pm.strip(a[:-1])
    D.append([sum(c * pow(x, k, p) for k, c in q) % p for x in xs])
  return D


def attack(s, I, rng, kind):
  p = I.p
  J = I.width - 1 if rng.random() < .6 else rng.randrange(I.width)
  wit = [list(w) for w in I.wit]
  inp, out = list(I.inp), [w[-1] for w in wit]
  order, use_l, hook, Lf = (0, 1, 2, 3), True, None, None
  fill = lambda M: [[v if v is not None else 0 for v in r] for r in M]
  delta = rng.randrange(1, p)
  if kind == 'honest':
    P, D, B = components(I)
    D, B = [lowdeg_fill(I, d) for d in D], [lowdeg_fill(I, b) for b in B]
  elif kind == 'badtrace-pointwise':     # equations hold everywhere they are checked; the result is not low-degree
    k = rng.randrange(1, I.steps)
    wit[J][k] = (wit[J][k] + delta) % p
    out = [w[-1] for w in wit]
    P, D, B = components(I, wit, out)
    D, B = fill(D), fill(B)
  elif kind == 'badtrace-lowdeg':        # everything low-degree; the transition equation fails
    k = rng.randrange(1, I.steps)
    wit[J][k] = (wit[J][k] + delta) % p
    out = [w[-1] for w in wit]
    P, D, B = components(I, wit, out)
    D = floor_quotient(I, wit)
    B = [lowdeg_fill(I, b) for b in B]
  elif kind == 'badout-pointwise':
    out[J] = (out[J] + delta) % p
    P, D, B = components(I, wit, out)
    D, B = [lowdeg_fill(I, d) for d in D], fill(B)
  elif kind in ('badout-lowdeg', 'badinp-lowdeg'):
    P, D, B = components(I)
    D, B = [lowdeg_fill(I, d) for d in D], [lowdeg_fill(I, b) for b in B]
    if kind == 'badout-lowdeg':
      out[J] = (out[J] + delta) % p
    else:
      inp[J] = (inp[J] + delta) % p
  elif kind == 'wrong-d':
    P, D, B = components(I)
    D, B = [lowdeg_fill(I, d) for d in D], [lowdeg_fill(I, b) for b in B]
    D[J] = [(v + delta) % p for v in D[J]]
  elif kind == 'wrong-b':
    P, D, B = components(I)
    D, B = [lowdeg_fill(I, d) for d in D], [lowdeg_fill(I, b) for b in B]
    B[J] = [(v + delta) % p for v in B[J]]
  elif kind in ('wrong-l', 'swapped-k', 'other-l', 'zero-l'):
    P, D, B = components(I)
    D, B = [lowdeg_fill(I, d) for d in D], [lowdeg_fill(I, b) for b in B]
    if kind == 'swapped-k':
      order = rng.choice([(1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1), (0, 0, 2, 3)])
    elif kind == 'wrong-l':
      use_l = False
    elif kind == 'zero-l':
      Lf = lambda root: [0] * I.prec
    else:
      Lf = lambda root: [(v + delta) % p for v in pr.combine(I.c, P, D, B, root)]
  elif kind == 'badcolumn':
    P, D, B = components(I)
    D, B = [lowdeg_fill(I, d) for d in D], [lowdeg_fill(I, b) for b in B]
    hook = lambda level, col: [(v + delta) % p for v in col]
  Lf = Lf or (lambda root: pr.combine(I.c, P, D, B, root, order, use_l))
  proof = pr.stark_prove(I.c, P, D, B, Lf, hook=hook)
  sverify(s, I, proof, inp, out)
  return proof


ATTACKS = ['badtrace-pointwise', 'badtrace-lowdeg', 'badout-pointwise', 'badout-lowdeg', 'badinp-lowdeg', 'wrong-d', 'wrong-b',
           'wrong-l', 'swapped-k', 'other-l', 'zero-l', 'badcolumn']


def tamper(rng, proof, I):
  """One alteration of an honest proof (structure kept)."""
  q = copy.deepcopy(proof)
  kinds = ['leaf', 'leaf', 'sib', 'sib', 'mroot', 'lroot', 'swapbr', 'samepos', 'drop', 'short', 'leafval', 'perm', 'fin', 'fin', 'reorder', 'shift', 'shift', 'finnodes']
  if len(q[3]) > 1:
    kinds += ['frileaf', 'frileaf', 'frisib', 'friroot', 'friswap', 'frishort', 'fridrop', 'friperm', 'frishift', 'frishift']
  k = rng.choice(kinds)
  b = q[2]
  if k == 'leaf':
    i = rng.randrange(len(b))
    b[i][0] = flip(rng, b[i][0])
  elif k == 'leafval':
    i = rng.randrange(len(b))
    lf = bytearray(b[i][0])
    o = 32 * rng.randrange(len(lf) // 32)
    v = (int.from_bytes(lf[o:o + 32], 'big') + rng.choice([1, I.p])) % 2**256
    lf[o:o + 32] = v.to_bytes(32, 'big')
    b[i][0] = bytes(lf)
  elif k == 'sib':
    i = rng.randrange(len(b))
    j = rng.randrange(1, len(b[i]))
    b[i][j] = flip(rng, b[i][j])
  elif k == 'mroot':
    q[0] = flip(rng, q[0])
  elif k == 'lroot':
    q[1] = flip(rng, q[1])
  elif k == 'swapbr':
    i = 3 * rng.randrange(len(b) // 3)
    a, c = rng.choice([(0, 1), (0, 2), (1, 2)])
    b[i + a], b[i + c] = b[i + c], b[i + a]
  elif k == 'samepos':
    i = 3 * rng.randrange(len(b) // 3)
    b[i + 1] = list(b[i])
  elif k == 'drop':
    q[2] = b[:-rng.choice([1, 2, 3])]
  elif k == 'short':
    i = rng.randrange(len(b))
    b[i] = b[i][:-1] if rng.random() < .5 else b[i][1:]
  elif k == 'shift':
    shift(rng, b[rng.randrange(len(b))])
  elif k == 'perm':
    if len(b) >= 6:
      i, j = rng.sample(range(len(b) // 3), 2)
      b[3 * i:3 * i + 3], b[3 * j:3 * j + 3] = b[3 * j:3 * j + 3], b[3 * i:3 * i + 3]
  elif k == 'reorder':
    q[0], q[1] = q[1], q[0]
  else:
    fri_tamper(rng, q[3], k, I.p)
  return k, q


def fri_tamper(rng, f, k, p):
  if k == 'fin':
    i = rng.randrange(len(f[-1]))
    v = (int.from_bytes(f[-1][i], 'big') + rng.choice([1, 1, rng.randrange(1, p), p])) % 2**256
    f[-1][i] = v.to_bytes(32, 'big')
    return
  if k == 'finnodes':        # the inner nodes above the committed values
    L = len(f[-1])
    h = rng.choice([2, 2, 4])
    if L // h < 4:
      return
    if rng.random() < .5:
      t = pr.Tree(list(f[-1])).t
    else:
      t = [b''] * L + [f[-1][i] for i in sorted(range(L), key=lambda i: pr.slot(i, L))]
      for i in range(L - 1, 0, -1):
        t[i] = pr.H(t[2 * i] + t[2 * i + 1])
    m = L // h
    f[-1] = [t[m + pr.slot(i, m)] for i in range(m)]
    return
  if k == 'finswap':
    i, j = rng.sample(range(len(f[-1])), 2)
    f[-1][i], f[-1][j] = f[-1][j], f[-1][i]
    return
  comp = f[rng.randrange(len(f) - 1)]
  brs = comp[1]
  i = rng.randrange(len(brs))
  if k == 'friroot':
    comp[0] = flip(rng, comp[0])
  elif k == 'fridrop':
    comp[1] = brs[:-1]
  elif k == 'friperm':
    j = rng.randrange(len(brs))
    brs[i], brs[j] = brs[j], brs[i]
  else:
    j = rng.randrange(5)
    if k == 'frileaf':
      v = (int.from_bytes(brs[i][j][0], 'big') + rng.choice([1, rng.randrange(1, p), p])) % 2**256
      brs[i][j][0] = v.to_bytes(32, 'big')
    elif k == 'frisib':
      m = rng.randrange(1, len(brs[i][j]))
      brs[i][j][m] = flip(rng, brs[i][j][m])
    elif k == 'friswap':
      a = rng.randrange(1, 5)
      brs[i][j], brs[i][a] = brs[i][a], brs[i][j]
    elif k == 'frishift':
      shift(rng, brs[i][j])
    elif k == 'frishort':
      brs[i][j] = brs[i][j][:-1] if rng.random() < .5 else brs[i][j][1:]


def P21(s, rng, sid, tier):
  if sid % 12 == 11:
    I = stark_instance(s, rng, tier, big=True)
    attack(s, I, rng, 'honest')
    attack(s, I, rng, rng.choice(ATTACKS))
    return
  if sid % 16 == 5:
    I = stark_instance(s, rng, tier, large=True)
    I.samples = I.c['samples'] = max(4, min(I.samples, 6))
    honest = attack(s, I, rng, 'honest')
    for k in rng.sample(ATTACKS, 2):
      attack(s, I, rng, k)
    for _ in range(4):
      k, q = tamper(rng, honest, I)
      sverify(s, I, q)
    return
  I = stark_instance(s, rng, tier, small=sid % 2 == 0)
  honest = attack(s, I, rng, 'honest')
  for k in rng.sample(ATTACKS, 7 if tier == 'quick' else 12):
    if k == 'badcolumn' and I.steps * I.deg <= 16:
      continue
    attack(s, I, rng, k)
  for _ in range(14 if tier == 'quick' else 25):
    k, q = tamper(rng, honest, I)
    sverify(s, I, q)
  # other claims
  out = [w[-1] for w in I.wit]
  j = rng.randrange(I.width)
  o2 = list(out)
  o2[j] = (o2[j] + rng.randrange(1, I.p)) % I.p
  sverify(s, I, honest, out=o2)
  i2 = list(I.inp)
  i2[j] = (i2[j] + rng.randrange(1, I.p)) % I.p
  sverify(s, I, honest, inp=i2)
  if I.width > 1:
    sverify(s, I, honest, out=out[::-1])
    sverify(s, I, honest, inp=I.inp[::-1])
  # an inner node opened as a leaf
  for _ in range(3):
    q = copy.deepcopy(honest)
    i = rng.randrange(len(q[2]))
    q[2][i] = q[2][i][1:]
    sverify(s, I, q)


# ---------------------------------------------------------------------------
# P22
def fri_params(rng, big=False, large=False):
  while True:
    n, m = rng.choice([(16, 4), (32, 8), (64, 16), (128, 32), (128, 24), (256, 32), (256, 64), (64, 32), (128, 64), (256, 20), (64, 17), (128, 35), (256, 70), (256, 80), (512, 80), (512, 96), (16, 16)])
    if big:
      n, m = rng.choice([(16, 4), (64, 17), (64, 32)])
    if large:                # three foldings and more
      n, m = rng.choice([(1024, 320), (1024, 512), (1024, 260), (2048, 272), (2048, 512)])
    p = rng.choice([65537, STARKP] if big else [12289, 40961] if large else PRIMES[:7])
    if (p - 1) % n:
      continue
    e = rng.choice([0, 0, 2, 4, 8])
    # enough allowed positions at the last level
    k, d = n, m
    while d > 16:
      k, d = k // 4, d // 4
    if k < 4 or k - (-(-k // e) if e else 0) <= d:
      continue
    g = None
    while g is None or pow(g, n // 2, p) == 1:
      g = pow(rng.randrange(2, p), (p - 1) // n, p)
    return p, n, m, e, g


def P22(s, rng, sid, tier):
  if sid == 0:
    # known finding: a bound that is not 4^k times something <= 16 rounds down
    rid = s.ctx.zp(257)
    s.ctx.poly(rid)
    s.do('newe', pow(3, 4, 257), d='g', r=rid)
    s.do('newp', [0] * 16 + [1], d='f', r=rid)
    s.do('fprove', Ref('f'), Ref('g'), r=rid, m=17, e=0, samples=40, malformed=False, _p=257, _n=64, _box=[])
    s.keep()
  big = sid % 12 == 11
  large = sid % 24 == 6
  p, n, m, e, g = fri_params(rng, big, large)
  k = cap = m               # what the protocol can fold: the bound is divided by four, rounding down
  t = 1
  while k > 16:
    k, t = k // 4, t * 4
    cap = k * t
  rid = s.ctx.zp(p)
  s.ctx.poly(rid)
  s.do('newe', g, d='g', r=rid)
  samples = rng.choice([2, 3]) if big else rng.choice([3, 5]) if large else rng.choice([40, 40, 20, 5, 48])
  dflt = samples == 40 and rng.random() < .5

  def fprove(f):
    box = []
    s.do('newp', f, d='f', r=rid)
    s.do('fprove', Ref('f'), Ref('g'), r=rid, m=m, e=e, samples=samples, malformed=False, _p=p, _n=n, _box=box, _default=dflt)
    return box

  def fverify(proof, root, m_=None):
    mm = m if m_ is None else m_
    try:
      prf, bad = fri_record(proof, root, g, n, mm, e, samples, p), False
    except Exception:
      prf, bad = 0, True
    s.do('fverify', Ref('g'), r=rid, m=mm, e=e, samples=samples, malformed=bad, prf=prf, _proof=proof, _root=root, _default=dflt)
  box = fprove([rng.randrange(p) for _ in range(cap)])
  if large:
    fprove([rng.randrange(p) for _ in range(m)] + [rng.randrange(1, p)])
  elif not big:
    fprove(rng.choice([[], [0], [5], [0] * (cap - 1) + [1], [rng.randrange(p) for _ in range(max(1, cap // 2))]]))
    fprove([rng.randrange(p) for _ in range(m)] + [rng.randrange(1, p)])               # one degree too many
    if n > 2 * m:
      fprove([rng.randrange(p) for _ in range(2 * m)])
  if len(box) < 2:
    return
  proof, root = box
  xs = pr.powers(g, p)
  f = [rng.randrange(p) for _ in range(cap)]
  good = [pr.ev(f, x, p) for x in xs]

  def mine(vals, hook=None):
    r = pr.Tree([pr.enc(v) for v in vals]).root
    q = pr.fri_prove(vals, g, m, e, samples, p, hook)
    fverify(q, r)
    return q, r
  q, r = mine(good)
  if big:
    q2 = copy.deepcopy(q)
    fri_tamper(rng, q2, 'fin', p)
    fverify(q2, r)
    return
  if large:
    d = rng.randrange(1, p)
    for L in range(3):
      mine(good, lambda level, col: [(x + d) % p for x in col] if level == L else None)
    for k in ['fin', 'frishift', 'frileaf', 'frisib', 'fridrop', 'friperm']:
      q2 = copy.deepcopy(q)
      fri_tamper(rng, q2, k, p)
      fverify(q2, r)
    return
  mine([rng.randrange(p) for _ in range(n)])                       # far from everything
  v = list(good)
  for i in rng.sample(range(n), rng.choice([1, 2, n // 4])):
    v[i] = rng.randrange(p)
  mine(v)                                                          # close to a codeword
  d = rng.randrange(1, p)
  if m > 16:
    mine(good, lambda level, col: [(x + d) % p for x in col])      # column of another polynomial
    L = rng.randrange(2)
    mine(good, lambda level, col: [rng.randrange(p) for x in col] if level == L else None)
    mine([pr.ev(f + [d], x, p) for x in xs], lambda level, col: None)
    # the column only disagrees at few places
    mine(good, lambda level, col: [(x + d) % p if i % 7 == 1 else x for i, x in enumerate(col)])
  fverify(proof, flip(rng, root))
  fverify(proof, r)                    # another commitment
  fverify(q, root)
  kinds = ['fin', 'fin', 'finswap', 'finnodes']
  if len(proof) > 1:
    kinds += ['frishift', 'frishift', 'frileaf', 'frileaf', 'frisib', 'frisib', 'friroot', 'friswap', 'frishort', 'fridrop', 'friperm', 'cut']
  for _ in range(12 if tier == 'quick' else 24):
    q2 = copy.deepcopy(proof)
    k = rng.choice(kinds)
    if k == 'cut':
      del q2[rng.randrange(len(q2) - 1)]
    else:
      fri_tamper(rng, q2, k, p)
    fverify(q2, root)
  # inner nodes opened as leaves, chosen so that the value happens to fit
  if p == 257 and len(proof) > 1:
    t = pr.Tree([pr.enc(x) for x in good])
    ys = pr.indices(q[0][0], n // 4, samples, e)
    for i, y in enumerate(ys):
      for j in range(4):
        pos = y + n // 4 * j
        br = t.short_branch(pos)
        if int.from_bytes(br[0], 'big') % p == good[pos]:
          q2 = copy.deepcopy(q)
          q2[0][1][i][1 + j] = br
          fverify(q2, r)
  if m > 16:
    fverify(q, r, m_=m // 2 if m // 2 > 16 else 17)


# ---------------------------------------------------------------------------
# P23
def P23(s, rng, sid, tier):
  large = sid % 12 == 3
  big = sid % 10 == 9 and not large
  for _ in range(1 if big or large else 2):
    I = stark_instance(s, rng, tier, big=('stark' if rng.random() < .3 else True) if big else False, large=large)
    F = s.ctx.field(I.rid)
    s.do('newe', I.g, d='G2', r=I.rid)
    s.do('newe', I.g1, d='G1', r=I.rid)
    s.do('newe', I.last, d='last', r=I.rid)
    wit = [list(w) for w in I.wit]
    inp = list(I.inp)
    bad = rng.random() < .35
    if bad:
      j, k = rng.randrange(I.width), rng.randrange(I.steps)
      how = rng.randrange(5)
      if how < 3:
        wit[j][k] = (wit[j][k] + rng.randrange(1, I.p)) % I.p
      else:
        # traces whose interpolants have small degree
        k = 0
        for j in range(I.width) if rng.random() < .6 else [j]:
          if how == 3:
            wit[j] = wit[j][:1] * I.steps
          else:
            c = rng.randrange(1, I.p)
            wit[j] = [(wit[j][0] + c * (pow(I.g1, i, I.p) - 1)) % I.p for i in range(I.steps)]
      if k == 0 and rng.random() < .7:
        inp[j] = wit[j][0]
    W = [felems(s, I, w) for w in wit]
    s.do('ctrace', Ref('G1'), W, d='tp', r=I.rid)
    s.do('cconstraint', Ref('fs'), Ref('tp'), Ref('G1'), d='cp', r=I.rid)
    s.do('cremainder', Ref('cp'), Ref('last'), d='dp', r=I.rid, steps=I.steps)
    s.do('cboundary', Ref('tp'), W, felems(s, I, inp), Ref('last'), d='bp', r=I.rid)
    root = rand_bytes(rng, 32)
    num = rng.choice([0, 1, 2, 4, 5, 11])
    s.do('ks', root, num=num, h=pr.ks_oracle(root, num))
    if 'dp' in s.regs and 'bp' in s.regs:
      s.do('cjoint', root, Ref('tp'), Ref('dp'), Ref('bp'), Ref('G2'), d='', r=I.rid, steps=I.steps, prec=I.prec,
           hk=pr.ks_oracle(root, 4), hl=pr.ks_oracle(root, I.width))
    s.keep()


GEN = dict(P11=P11, P12=P12, P13=P13, P14=P14, P15=P15, P16=P16, P20=P20, P21=P21, P22=P22, P23=P23)
COUNT = {'P11': (40, 300), 'P12': (40, 300), 'P13': (60, 500), 'P14': (48, 400), 'P15': (48, 400), 'P16': (48, 300),
         'P20': (48, 300), 'P21': (32, 160), 'P22': (48, 240), 'P23': (48, 400)}


REPEATED = ['P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P20', 'P21', 'P22', 'P23']


def P32(s, rng, sid, tier):
  s.twice = True
  GEN[REPEATED[sid % len(REPEATED)]](s, rng, 1 + sid // len(REPEATED), 'quick')


GEN['P32'] = P32
COUNT['P32'] = (40, 240)


def sessions(pid, tier):
  return list(range(COUNT[pid][0 if tier == 'quick' else 1]))


def make(pid, tier, sid, rng, out):
  return ProtoSession(sid, rng, out)


def run(s, pid, tier, sid, rng):
  GEN[pid](s, rng, sid, tier)
