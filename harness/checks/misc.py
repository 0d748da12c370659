"""Sessions for P03 P19 P28 P29 P30 P31 P33, judged by GadgetTrace.tla."""
import itertools, math, random, sys
import pymath as pm
from core import Ref, Session, Registry, limbs, load_misc, watched, kept
from checks.alg import Ctx, zp_id


# ---------------------------------------------------------------------------
# one-way functions known to the specification
def one_way(f):
  if f['k'] == 'sq':
    M = f['_M']
    return lambda x: pow(x, 2, M)
  A, C, M = f['_A'], f['_C'], f['_M']
  return lambda x: (A * x + C) % M


def predicate(h):
  if h == 'parity':
    return lambda n: bin(n).count('1') % 2
  return lambda n: n % 2


def sq(M):
  return {'k': 'sq', 'M': limbs(M), '_M': M}


def aff(A, C, M):
  return {'k': 'aff', 'A': limbs(A), 'C': limbs(C), 'M': limbs(M), '_M': M, '_A': A, '_C': C}


def clean(f):
  return {k: v for k, v in f.items() if not k.startswith('_')}


def tup(com):
  return tuple(com)


def tups(coms):
  return watched([tuple(c) for c in coms])


def graph(g):
  return watched([tuple(e) for e in g])


def tabf(t):
  return lambda i: t[i - 1]


def permf(L):
  return lambda i: L[i - 1] + 1


def build_ops():
  O = {}

  def reg(f):
    O[f.__name__.rstrip('_')] = f
    return f

  def c(P):
    return P['_ctx']

  @reg
  def newe(P, a): return c(P).field(P['r'])(a)
  @reg
  def newp(P, a): return c(P).poly(P['r'])(a)
  @reg
  def newm(P, a): return c(P).multi(P['r'], P['n'])({tuple(e): v for e, v in a})
  @reg
  def list_(P, *a): return list(a)
  @reg
  def pick(P, a): return a[P['i']]

  # floating point
  def fl(P):
    from starks.floatingpoint import FloatingPoint
    return FloatingPoint(c(P).field(P['r']))
  @reg
  def fmk(P, v, p, z, s): return fl(P)(v, p, z, s)
  @reg
  def fadd(P, a, b): return a + b
  @reg
  def fsub(P, a, b): return a - b
  @reg
  def fmul(P, a, b): return a * b
  @reg
  def fdiv(P, a, b): return a / b
  @reg
  def feq(P, a, b): return bool(a == b)
  @reg
  def ffix(P, a): return a.Float_to_Fix()
  @reg
  def fpow(P, a, b): return a**b
  @reg
  def fparts(P, a): return [a.v, a.p, a.z, a.s]
  @reg
  def elt(P, a, b): return a.LT(b)
  @reg
  def etwo(P, a): return a.two_pow()
  @reg
  def erba(P, a, b): return a.Regular_Binary_Addition(b)

  @reg
  def req(P, *a): return P['_call']()
  @reg
  def bulk(P, *a): return P['_call']()

  # commitments
  def m():
    return load_misc()

  def key(P):
    return repr((P['f'], P['h']))

  # one function object per function, so that objects built from it are kept
  def fn(P):
    return P['_s'].objs.setdefault(repr(P['f']), one_way(P['_f']))

  def pred(P):
    return P['_s'].objs.setdefault(P['h'], predicate(P['h']))

  def bver(P):
    return kept(key(P), m()['commitment'].BBSBitCommitmentVerifier, fn(P), pred(P))

  def iver(P):
    return kept(key(P), m()['commitment'].BBSIntCommitmentVerifier, P['n'], fn(P), pred(P))
  @reg
  def bgen(P):
    sch = m()['commitment'].BBSBitCommitmentScheme(one_way(P['_f']), predicate(P['h']), P['sp'])
    P['_s'].objs['bit'] = sch
    return sch.reveal()
  @reg
  def bcommit(P, sec, bit): return P['_s'].objs['bit'].commit(bit)
  @reg
  def bverify(P, sec, com):
    return bver(P).verify(sec, tup(com))
  @reg
  def bdecode(P, sec, com):
    return bver(P).decode(sec, tup(com))
  @reg
  def bind(P, com, sec, other):
    v = bver(P)
    return [v.verify(other, tup(com)), v.decode(other, tup(com))]
  @reg
  def igen(P):
    C = m()['commitment']
    if P['sp'] == 512 and P.get('_default'):
      sch = C.BBSIntCommitmentScheme(P['n'], one_way(P['_f']), predicate(P['h']))
    else:
      sch = C.BBSIntCommitmentScheme(P['n'], one_way(P['_f']), predicate(P['h']), P['sp'])
    P['_s'].objs['int'] = sch
    return list(sch.reveal())
  @reg
  def icommit(P, secs, x): return P['_s'].objs['int'].commit(x)
  @reg
  def iverify(P, secs, coms):
    return iver(P).verify(secs, tups(coms))
  @reg
  def idecode(P, secs, coms):
    return iver(P).decode(secs, tups(coms))

  # primality
  @reg
  def decompose(P, n): return m()['primality'].decompose(n)
  @reg
  def witness(P, a, n, e, r): return m()['primality'].isWitness(a, n, e, r)
  @reg
  def prime(P, n):
    f = m()['primality'].probablyPrime
    return f(n, accuracy=P['_acc']) if P.get('_acc') else f(n)
  @reg
  def good(P, n): return m()['blum_blum_shub'].good_prime(n)
  @reg
  def findgood(P, bits): return m()['blum_blum_shub'].find_good_prime(bits)
  @reg
  def parity(P, n): return m()['blum_blum_shub'].parity(n)
  @reg
  def modulus(P, bits):
    M = m()['blum_blum_shub'].make_modulus(bits)
    P['w'] = split(M)
    return M
  @reg
  def moduli(P, bits, k):
    Ms = [m()['blum_blum_shub'].make_modulus(bits) for _ in range(k)]
    P['w'] = [split(M) for M in Ms]
    return Ms
  @reg
  def bigmodulus(P, bits):
    return m()['blum_blum_shub'].make_modulus(bits)
  @reg
  def bbs(P, bits, xs):
    f = m()['blum_blum_shub'].blum_blum_shub(bits)
    ys = [f(x) for x in xs]
    g = 0
    for x, y in zip(xs, ys):
      g = math.gcd(g, x * x - y)
    P['w'] = split(g)
    return ys

  # graph isomorphism
  def z():
    return m()['zero_knowledge']
  @reg
  def zcount(P, g): return z().num_vertices(graph(g))
  @reg
  def zperm(P, n): return z().random_permutation(n)
  @reg
  def zperms(P, n): return [z().random_permutation(n) for _ in range(P['count'])]
  @reg
  def zpf(P, L):
    f = z().make_permutation_function(L)
    return [f(i) for i in range(1, len(L) + 1)]
  @reg
  def zinv(P, L):
    f = z().make_inverse_permutation_function(L)
    return [f(i) for i in range(1, len(L) + 1)]
  @reg
  def zapply(P, g, t): return z().apply_isomorphism(graph(g), tabf(t))
  @reg
  def zsend(P, g1, g2, iso):
    L, H = kept('', z().ZKProver, graph(g1), graph(g2), iso).send_isomorphic_copy()
    return [L, H]
  @reg
  def zprove(P, g1, g2, iso, L, ch):
    f = kept('', z().ZKProver, graph(g1), graph(g2), iso).prove_isomorphic_to(L, ch)
    return [f(i) for i in range(1, len(L) + 1)]
  @reg
  def zaccepts(P, g1, g2, t, ch, h):
    return kept('', z().ZKVerifier, graph(g1), graph(g2)).accepts(tabf(t), ch, graph(h))
  @reg
  def zmake(P, g1, g2, L):
    if P['_who'] == 'prover':
      z().ZKProver(graph(g1), graph(g2), L)
    else:
      z().ZKVerifier(graph(g1), graph(g2))
    return True
  @reg
  def zchoices(P, g1, g2):
    v = kept('', z().ZKVerifier, graph(g1), graph(g2))
    return [v.choose_graph() for _ in range(P['count'])]
  @reg
  def zruns(P, g1, g2, iso): return [z().run_protocol(graph(g1), graph(g2), iso) for _ in range(P['count'])]
  @reg
  def ztrans(P, g1, g2, iso):
    n = len(iso)
    out = []
    for _ in range(P['count']):
      if P['sim']:
        h, ch, f = z().simulate_protocol(graph(g1), graph(g2))
      else:
        h, ch, f = z().messages_from_protocol(graph(g1), graph(g2), iso)
      out.append([h, ch, [f(i) for i in range(1, n + 1)]])
    # repeated rounds are the same observation
    seen = []
    for o in out:
      if o not in seen:
        seen.append(o)
    return seen
  @reg
  def zsim(P, g1, g2):
    h, ch, f = z().simulate_protocol(graph(g1), graph(g2))
    return [h, ch, [f(i) for i in range(1, P['n'] + 1)]]
  @reg
  def zconv(P, g1, g2, iso): return z().convince_beyond_doubt(graph(g1), graph(g2), iso)

  # 3-coloring
  def t3():
    return m()['zkp_3_coloring']
  def prover(P, g, col):
    return kept(key(P), t3().ZK3ColProver, graph(g), {i + 1: x for i, x in enumerate(col)}, fn(P), pred(P))
  def verifier(P, g):
    return kept(key(P), t3().ZK3ColVerifier, graph(g), fn(P), pred(P))
  @reg
  def tcommit(P, g, col):
    p = prover(P, g, col)
    coms = p.commit_to_coloring()
    n = len(col)
    secs = {}
    for (u, w) in g:
      a, b = min(u, w), max(u, w)
      secs[a], secs[b] = p.reveal_colors(u, w)
    if sorted(coms) != list(range(1, n + 1)):
      return 'vertices'
    return [[coms[i] for i in range(1, n + 1)], [secs[i] for i in range(1, n + 1)]]
  @reg
  def taccept(P, g, coms, secs):
    v = verifier(P, g)
    com = {i + 1: tups(x) for i, x in enumerate(coms)}
    e = v.choose_edge(com)
    rev = (secs[e[0] - 1], secs[e[1] - 1])
    if P['swap']:
      # the opening of the second vertex first
      com[e[0]], com[e[1]] = com[e[1]], com[e[0]]
      rev = (rev[1], rev[0])
    return [list(e), v.accepts(rev)]
  @reg
  def treveal(P, g, u, w):
    n = max(max(e) for e in g)
    p = prover(P, g, [0] * n)
    p.commit_to_coloring()
    try:
      r = p.reveal_colors(u, w)
    except Exception:
      return False
    return len(r) == 2
  @reg
  def tedges(P, g):
    v = verifier(P, g)
    return [list(x) for x in set(tuple(v.choose_edge({})) for _ in range(P['count']))]
  @reg
  def tpairs(P, g, col):
    p = prover(P, g, col)
    v = kept(key(P), m()['commitment'].BBSIntCommitmentVerifier, 2, fn(P), pred(P))
    out = set()
    u, w = min(g[0]), max(g[0])
    for _ in range(P['count']):
      com = p.commit_to_coloring()
      a, b = p.reveal_colors(u, w)
      out.add((v.decode(a, com[u]), v.decode(b, com[w])))
    return [list(x) for x in sorted(out)]
  @reg
  def truns(P, g, col):
    cd = {i + 1: x for i, x in enumerate(col)}
    if P['_how'] == 'run':
      return [t3().run_protocol(graph(g), cd, P['sp']) for _ in range(P['count'])]
    out = []
    for _ in range(P['count']):
      p, v = t3().ZK3ColProver(graph(g), cd), t3().ZK3ColVerifier(graph(g))
      e = v.choose_edge(p.commit_to_coloring())
      out.append(v.accepts(p.reveal_colors(*e)))
    return out

  # APR
  @reg
  def apr(P, fs, inp):
    from starks.air import AIR
    from starks.apr import APR
    class Partial(APR):
      def generate_witness(self):
        return None
      def construct_Phi_polynomials(self, *a):
        return None
    a = AIR(c(P).field(P['r']), len(fs), inp, 511, fs, 8)
    x = Partial(a) if P['k'] == 5 and P.get('_default') else Partial(a, zero_knowledge_expansion=P['k'])
    P['_s'].objs['apr'] = x
    base = x.basePolys
    sp = lambda S: [[base(b) for b in S.basis], base(S.shift)]
    return [x.t, x.d, x.k, x.R, list(x.Tau), x.zeta, [list(n) for n in x.Nbrs],
            sp(x.H), sp(x.H0), sp(x.H1), sp(x.L), sp(x.Lcmp)]
  @reg
  def zs(P, zeta, B):
    x = P['_s'].objs['apr']
    return list(x.Z_boundaries) if P.get('_own') else x.construct_Z_boundaries([tuple(b) for b in B])
  @reg
  def eps(P, zeta, B):
    x = P['_s'].objs['apr']
    return list(x.Eps_boundaries) if P.get('_own') else x.construct_Eps_boundaries([tuple(b) for b in B])
  @reg
  def rates(P, fs, B):
    x = P['_s'].objs['apr']
    if P.get('_own'):
      return [list(x.rho_js), x.rho_cmp]
    return [list(x.compute_rho_js(x.construct_Z_boundaries([tuple(b) for b in B]), x.L)), x.compute_rho_cmp(x.Lcmp)]
  return O


def split(M):
  """A factorisation hint, checked by the specification."""
  d = 3
  while 0 < M and d * d <= M and d < 2**17:
    if M % d == 0 and pm.is_prime(M // d) and M // d < 2**30:
      return {'p': d, 'q': M // d}
    d += 2
  return {'p': 0, 'q': 0}


def enc_float_num(x, reg):
  cls = type(x)
  if cls.__name__ == 'Fp' and hasattr(x, 'v') and hasattr(x, 'z'):
    v, p = reg.encode(x.v), reg.encode(x.p)
    if v['t'] == 'e' and p['t'] == 'e' and v['r'] == p['r'] and type(x.z) is int and type(x.s) is int:
      return {'t': 'F', 'r': v['r'], 'v': [v['v'], p['v'], x.z, x.s]}
  return None


OPS = build_ops()


class MiscSession(Session):
  MODULE = 'GadgetTraceMC'

  def __init__(self, sid, rng, out):
    Session.__init__(self, sid, rng, Registry(), out, OPS)
    self.ctx = Ctx(self)
    self.reg.enc.append(enc_float_num)
    self.n = 0
    self.objs = {}

  def do(self, name, *args, d='', **P):
    P['_ctx'], P['_s'] = self.ctx, self
    if '_f' in P:
      P['f'] = clean(P['_f'])
    return self.op(name, *args, d=d, P=P)

  def fresh(self, pre='x'):
    self.n += 1
    return '%s%d' % (pre, self.n)

  def mk(self, op, *args, **P):
    n = self.fresh(op[:2])
    self.do(op, *args, d=n, **P)
    return Ref(n)

  def elem(self, rid, raw):
    return self.mk('newe', raw, r=rid)

  def keep(self, *refs):
    ks = set(r.name for r in refs if isinstance(r, Ref))
    for k in list(self.regs):
      if k not in ks:
        del self.regs[k]


# ---------------------------------------------------------------------------
# P19
MODS = {2: [[1, 1, 1]], 3: [[1, 1, 0, 1], [1, 0, 1, 1]], 4: [[1, 1, 0, 0, 1], [1, 1, 1, 1, 1]],
        5: [[1, 0, 1, 0, 0, 1], [1, 1, 1, 0, 1, 1]], 6: [[1, 1, 0, 0, 0, 0, 1]], 8: [[1, 1, 0, 1, 1, 0, 0, 0, 1], [1, 0, 1, 1, 1, 0, 0, 0, 1]]}


def bits(n, m):
  return [n >> i & 1 for i in range(m)]


def P19(s, rng, sid, tier):
  if sid < 16:
    m, mod = 2, MODS[2][0]
  else:
    m = rng.choice([3, 3, 4, 4, 5, 6, 8])
    mod = rng.choice(MODS[m])
  rid = s.ctx.gf(2, m, mod)
  E = {}

  def el(n):
    if n not in E:
      E[n] = s.elem(rid, bits(n, m))
    return E[n]
  size = 2**m

  def num(v, p, z, sg):
    return s.mk('fmk', el(v), el(p), z, sg, r=rid)
  if sid < 16:
    # every pair of well-formed numbers over GF(4), split over sessions
    allv = [(v, p, 1 if v == 0 else 0, sg) for v in range(4) for p in range(4) for sg in (0, 1)]
    for v in range(4):
      el(v)
    base = list(s.regs)
    for a in allv[2 * sid:2 * sid + 2]:
      A = num(*a)
      s.do('ffix', A)
      s.do('fparts', A)
      for b in allv:
        Bn = num(*b)
        for op in ('fadd', 'fsub', 'fmul', 'fdiv'):
          s.do(op, A, Bn)
        if a == b or a[2] != b[2]:
          s.do('feq', A, Bn)
        if b[1] < 2 or sid % 4 == 0:
          s.do('fpow', A, Bn)
        s.drop(Bn.name)
      for k in list(s.regs):
        if k not in base:
          del s.regs[k]
    for v in range(4):
      s.do('etwo', el(v))
      for w in range(4):
        s.do('elt', el(v), el(w))
        s.do('erba', el(v), el(w))
    return
  n = 10 if tier == 'quick' else 25

  def rnd():
    v = rng.choice([0, 1, size - 1, rng.randrange(size), rng.randrange(size), rng.randrange(size)])
    p = rng.choice([0, 1, 2, size - 1, rng.randrange(size), rng.randrange(size)])
    return (v, p, 1 if v == 0 else 0, rng.randrange(2))
  live = []
  for i in range(n):
    a = rnd()
    live.append((a, num(*a)))
    if i % 3 == 2:     # near in exponent / equal exponent
      b = (rng.randrange(1, size), a[1] ^ rng.randrange(min(size, 4)), 0, rng.randrange(2))
      live.append((b, num(*b)))
    if len(live) > 6:
      live = live[-6:]
    s.keep(*([x[1] for x in live] + list(E.values())))
    for _ in range(3):
      (x, X), (y, Y) = rng.choice(live), rng.choice(live)
      op = rng.choice(['fadd', 'fsub', 'fmul', 'fdiv', 'fadd', 'fdiv'])
      if rng.random() < .3:
        s.do(op, X, Y, d='r')
        if 'r' in s.regs:
          s.do(rng.choice(['fadd', 'fmul', 'fsub']), Ref('r'), Y)
          s.drop('r')
      else:
        s.do(op, X, Y)
    (x, X), (y, Y) = rng.choice(live), rng.choice(live)
    if x == y or x[2] != y[2]:
      s.do('feq', X, Y)
    s.do('feq', X, X)
    s.do('ffix', X)
    s.do('fparts', X)
    if i % 3 == 0:
      ex = (rng.choice([0, 1, 2, 3]), rng.choice([0, 0, 1]), 0, rng.randrange(2))
      ex = (ex[0], ex[1], 1 if ex[0] == 0 else 0, ex[3])
      s.do('fpow', X, num(*ex))
      if m <= 4:
        s.do('fpow', X, Y)
    a, b = el(rng.randrange(size)), el(rng.randrange(size))
    s.do('elt', a, b)
    s.do('elt', a, a)
    s.do('erba', a, b)
    s.do('etwo', a)


def known_eq(s):
  """The listed finding: equality ignores everything but the zero flag."""
  rid = s.ctx.gf(2, 3, [1, 1, 0, 1])
  a = s.mk('fmk', s.elem(rid, [1]), s.elem(rid, [0]), 0, 0, r=rid)
  b = s.mk('fmk', s.elem(rid, [0, 1]), s.elem(rid, [0]), 0, 0, r=rid)
  s.do('feq', a, b)


# ---------------------------------------------------------------------------
# P03
def P03(s, rng, sid, tier):
  for k in [k for k in sys.modules if k == 'starks' or k.startswith('starks.')]:
    del sys.modules[k]
  from starks.modp import IntegersModP
  from starks.rationals_modp import RationalsModP
  from starks.finitefield import FiniteField
  from starks.floatingpoint import FloatingPoint
  from starks.polynomial import polynomials_over
  from starks.multivariate_polynomial import multivariates_over
  import fractions
  classes = []            # structures seen, position = id - 1

  def ident(c):
    if c is fractions.Fraction:
      return 0
    for i, x in enumerate(classes):
      if x is c:
        return i + 1
    classes.append(c)
    return len(classes)

  def enc(x, reg):
    if not isinstance(x, type):
      return None
    out = {'id': ident(x), 'kind': '', 'a': [], 'mod': [], 'pr': []}
    name = x.__name__
    if hasattr(x, 'ideal_generator'):
      z = [0] * x.m + [1]
      c = [int(a) for a in x(z).poly.coefficients]
      out.update(kind='ff', a=[x.p, x.m], mod=[int(a) for a in x.ideal_generator.coefficients], pr=c + [0] * (x.m - len(c)))
    elif hasattr(x, 'num_vars'):
      (k, v), = x(1).coefficients.items()
      out.update(kind='multi', a=[ident(x.ring), x.num_vars], pr=[ident(type(v)), len(k)])
    elif hasattr(x, 'ring'):
      out.update(kind='poly', a=[ident(x.ring)], pr=[ident(type(x([1]).coefficients[0]))])
    elif name.startswith('Z/'):
      out.update(kind='zp', a=[x.p], pr=[int(x(-1))])
    elif name.startswith('Q/'):
      y = x(-1)
      out.update(kind='q', a=[x.p], pr=[y.m, y.n])
    elif name == 'Fp':
      f = fpfield[ident(x)] if ident(x) in fpfield else None
      w = x(f(0), f(0), 1, 0)
      out.update(kind='fp', a=[ident(type((w * w).v))])
    return {'t': 'c', 'v': out}
  fpfield = {}
  s.reg.enc.insert(0, enc)
  keys, meta = [], []

  def req(key, kind, call, on=0, **P):
    if len(keys) >= 26:
      return None
    prev = [Ref('c%d' % (i + 1)) for i in range(len(keys))]
    base = dict(p=0, m=0, n=0, mod=[])
    base.update(P)
    base['mod'] = list(base['mod'] or [])
    me = (kind, base['p'], base['m'], bool(base['mod']))
    opn = [kind == 'ff' and x[:3] == me[:3] and x[3] != me[3] for x in meta]
    d = 'c%d' % (len(keys) + 1)
    r = s.do('req', *prev, d=d, _call=call, key=key, keys=list(keys), open=opn, kind=kind, on=on, **base)
    if d not in s.regs:
      raise StopIteration
    keys.append(key)
    meta.append(me)
    return len(keys)

  def pos(f, names, args, rng=rng):
    """positional, keyword or mixed call"""
    k = rng.randrange(len(args) + 1)
    return lambda: f(*args[:k], **dict(zip(names[k:], args[k:])))
  C = lambda i: s.regs['c%d' % i]
  PR = [2, 3, 5, 7, 11]
  fld = []        # positions of field structures

  def zp(p):
    i = req('zp(%d)' % p, 'zp', pos(IntegersModP, ['p'], [p]), p=p)
    if i:
      fld.append(i)
    return i

  def ff(p, m, mod):
    if mod is None:
      form = rng.randrange(3)
      if form == 0:
        call = pos(FiniteField, ['p', 'm'], [p, m])
      else:
        call = pos(FiniteField, ['p', 'm', 'polynomialModulus'], [p, m, None])
    else:
      zi = zp(p)
      if not zi:
        return None
      pi = req('poly(%s)' % keys[zi - 1], 'poly', pos(polynomials_over, ['ring'], [C(zi)]), on=zi)
      if not pi:
        return None
      poly = C(pi)(list(mod))
      call = pos(FiniteField, ['p', 'm', 'polynomialModulus'], [p, m, poly])
    if m == 1:
      i = req('zp(%d)' % p, 'zp', call, p=p)
    else:
      i = req('ff(%d,%d,%s)' % (p, m, mod), 'ff', call, p=p, m=m, mod=mod)
    if i:
      fld.append(i)
    return i
  def bulk():
    # many other structures requested in between
    kind = rng.randrange(5)
    n = rng.choice([30, 60, 140, 300] if tier == 'quick' else [30, 140, 300, 600, 1200])
    if kind == 0:
      calls = [lambda p=p: IntegersModP(p) for p in range(1009, 1009 + n)]
    elif kind == 1:
      F = IntegersModP(7)
      calls = [lambda k=k: multivariates_over(F, k) for k in range(20, 20 + n)]
    elif kind == 2:
      Fs = [IntegersModP(p) for p in range(1009, 1009 + n)]
      calls = [lambda F=F: polynomials_over(F) for F in Fs]
    elif kind == 3:
      calls = [lambda p=p: RationalsModP(p) for p in range(1009, 1009 + n)]
    else:
      n = min(n, 150)
      Z = IntegersModP(13)
      R = polynomials_over(Z)
      irr = [m for m in ([c, b, 1] for b in range(13) for c in range(13)) if pm.irreducible(m, 13)]
      n = min(n, len(irr))
      calls = [lambda m=m: FiniteField(13, 2, R(m)) for m in irr[:n]]

    def call():
      got = [f() for f in calls]
      return [len(set(id(x) for x in got)), [f() is x for f, x in zip(calls, got)]]
    s.do('bulk', n, _call=call)
  menu = []
  for _ in range(4):
    p, m = rng.choice([(2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (5, 2)])
    menu.append((p, m, None if rng.random() < .4 else tuple(pm.random_irreducible(rng, p, m))))
  menu.append((menu[0][0], menu[0][1], tuple(pm.random_irreducible(rng, *menu[0][:2]))))
  menu.append((rng.choice([2, 3]), 1, None))
  ps = [rng.choice(PR) for _ in range(3)]
  try:
    if sid % 4 == 1:
      # many structures of one kind, then the first ones again
      many = rng.sample([2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71], 11)
      which = rng.randrange(4)
      one = {0: lambda p: zp(p), 1: lambda p: req('q(%d)' % p, 'q', pos(RationalsModP, ['p'], [p]), p=p),
             2: lambda p: ff(p, 2, tuple(pm.random_irreducible(random.Random(p), p, 2))) if p < 12 else zp(p)}
      if which == 3:
        i = ff(2, 3, None)
        for n in [3, 1, 5, 2, 8, 4, 7, 9, 6, 10, 11]:
          req('multi(%s,%d)' % (keys[i - 1], n), 'multi', pos(multivariates_over, ['ring', 'num_vars'], [C(i), n]), on=i, n=n)
        for n in [3, 8, 1]:
          req('multi(%s,%d)' % (keys[i - 1], n), 'multi', pos(multivariates_over, ['ring', 'num_vars'], [C(i), n]), on=i, n=n)
      else:
        for p in many + many[:4]:
          one[which](p)
    while len(keys) < 24:
      k = rng.randrange(8)
      if len(keys) in (8, 16, 22) and rng.random() < .3:
        bulk()
      if k == 0:
        zp(rng.choice(ps))
      elif k == 1:
        p = rng.choice(ps)
        req('q(%d)' % p, 'q', pos(RationalsModP, ['p'], [p]), p=p)
      elif k in (2, 3):
        ff(*rng.choice(menu))
      elif k == 4:
        if rng.random() < .3:
          req('poly(Q)', 'poly', rng.choice([lambda: polynomials_over(), lambda: polynomials_over(fractions.Fraction),
                                             lambda: polynomials_over(ring=fractions.Fraction)]), on=0)
        elif keys:
          i = rng.choice(fld) if fld else None
          if i:
            req('poly(%s)' % keys[i - 1], 'poly', pos(polynomials_over, ['ring'], [C(i)]), on=i)
      elif k in (5, 6):
        if fld:
          i = rng.choice(fld[-4:])
          n = rng.choice([1, 2, 2, 3])
          req('multi(%s,%d)' % (keys[i - 1], n), 'multi', pos(multivariates_over, ['ring', 'num_vars'], [C(i), n]), on=i, n=n)
      elif k == 7:
        two = [i for i in fld if meta[i - 1][0] == 'ff' and meta[i - 1][1] == 2]
        if two:
          i = rng.choice(two)
          F = C(i)

          def call(F=F):
            x = FloatingPoint(F) if rng.random() < .5 else FloatingPoint(field=F)
            if ident(x) not in fpfield:
              fpfield[ident(x)] = F
            return x
          req('fp(%s)' % keys[i - 1], 'fp', call, on=i)
  except StopIteration:
    pass


# ---------------------------------------------------------------------------
# P28
def good_prime_bits(rng, bits):
  while True:
    p = rng.getrandbits(bits) | 3
    if p % 4 == 3 and pm.is_prime(p) and p.bit_length() == bits:
      return p


def rand_fn(rng, tier, small=None):
  k = rng.random() if small is None else 0
  if k < .6:
    while True:
      p, q = rng.choice([3, 7, 11, 19, 23, 31, 43]), rng.choice([7, 11, 19, 23, 31, 43, 47])
      if p != q:
        return sq(p * q), rng.choice([4, 6, 8, 10])
  if k < .8:
    return sq(good_prime_bits(rng, 40) * good_prime_bits(rng, 41)), rng.choice([32, 90])
  if k < .9:
    M = good_prime_bits(rng, 120) * good_prime_bits(rng, 120)
    return sq(M), rng.choice([128, 512])
  M = rng.choice([101, 2**31 - 1, 2**61 - 1])
  return aff(rng.randrange(1, M), rng.randrange(M), M), 6 if M == 101 else 24


def P28(s, rng, sid, tier):
  for _ in range(2 if tier == 'quick' else 4):
    f, sp = rand_fn(rng, tier)
    h = rng.choice(['parity', 'parity', 'lsb'])
    M = f['_M']
    img = one_way(f)
    com = lambda sec, bit: [img(sec), predicate(h)(sec) ^ bit]
    kw = dict(_f=f, h=h)
    # bits
    s.regs.clear()
    for bit in (0, 1):
      s.do('bgen', d='sec', sp=sp, **kw)
      if 'sec' not in s.regs:
        return
      s.do('bcommit', Ref('sec'), bit, d='com', **kw)
      if 'com' not in s.regs:
        return
      sec, cm = s.regs['sec'], s.regs['com']
      s.do('bverify', Ref('sec'), Ref('com'), **kw)
      s.do('bdecode', Ref('sec'), Ref('com'), **kw)
      s.do('bcommit', Ref('sec'), 1 - bit, **kw)
      # dishonest openings
      others = [img(rng.randrange(M)) for _ in range(4)] + [sec + 1, sec + M, 0, 1]
      for o in others[:4]:
        s.do('bind', Ref('com'), Ref('sec'), o, **kw)
      for o in others:
        s.do('bverify', o, Ref('com'), **kw)
        s.do('bdecode', o, Ref('com'), **kw)
      # altered commitments
      for c in ([cm[0] + 1, cm[1]], [cm[0], 1 - cm[1]], [0, cm[1]], [cm[0] + M, cm[1]], [img(others[0]), cm[1]]):
        s.do('bverify', Ref('sec'), c, **kw)
        s.do('bdecode', Ref('sec'), c, **kw)
    # integers
    s.regs.clear()
    n = rng.choice([1, 2, 3, 5, 8, 9, 16])
    if len(f['M']) <= 12 and rng.random() < .25:
      n = rng.choice([31, 32, 33, 53, 54, 60, 64, 65, 80])
    val = rng.choice([0, 1, 2**n - 1, 2**(n - 1), rng.getrandbits(n)])
    big = len(f['M']) > 20
    if big:
      n, val = 3, rng.getrandbits(3)
    isp = rng.choice([sp, 512]) if not big else sp
    s.do('igen', d='secs', sp=isp, n=n, _default=True, **kw)
    if 'secs' not in s.regs:
      return
    s.do('icommit', Ref('secs'), val, d='coms', n=n, **kw)
    if 'coms' not in s.regs:
      return
    kw['n'] = n
    s.do('iverify', Ref('secs'), Ref('coms'), **kw)
    s.do('idecode', Ref('secs'), Ref('coms'), **kw)
    if not big:
      s.do('icommit', Ref('secs'), rng.getrandbits(n), **kw)
    secs, coms = list(s.regs['secs']), [list(c) for c in s.regs['coms']]
    forged = [img(rng.randrange(M)) for _ in range(n)]
    j = rng.randrange(n)
    one = secs[:j] + [forged[j]] + secs[j + 1:]
    k = rng.randrange(n)
    swapped = list(secs)
    swapped[j], swapped[k] = swapped[k], swapped[j]
    last = secs[:-1] + [secs[-1] + 1]
    for o in (forged, one, swapped, last, secs[::-1]):
      s.do('iverify', o, coms, **kw)
      s.do('idecode', o, coms, **kw)
    altered = [list(c) for c in coms]
    altered[j][1] ^= 1
    altered2 = [list(c) for c in coms]
    altered2[k][0] = img(altered2[k][0] + 1)
    altered3 = [list(c) for c in coms]
    altered3[n - 1][0] += 1
    for c in (altered, altered2, altered3, coms[::-1]):
      s.do('iverify', secs, c, **kw)
      s.do('idecode', secs, c, **kw)
    # missing and extra parts
    for a, b in ((secs[:-1], coms), (secs, coms[:-1]), (secs[:-1], coms[:-1]), (secs + [secs[0]], coms),
                 (secs + [secs[0]], coms + [coms[0]]), ([], coms), ([], []), (secs, coms + [coms[0]])):
      s.do('iverify', a, b, **kw)


def known_bind(s):
  """The listed finding: x and M - x open the same commitment."""
  f = sq(77)
  kw = dict(_f=f, h='parity')
  com = [36 * 36 % 77, bin(36).count("1") % 2 ^ 1]
  s.do("bind", com, 36, 77 - 36, **kw)


# ---------------------------------------------------------------------------
# P29
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361,
              162401, 252601, 294409, 399001, 410041, 1024651, 1152271, 56052361, 118901521, 172947529]
PSEUDO = [2047, 3277, 4033, 4681, 8321, 1373653, 25326001, 1194649, 12327121, 49141, 104653, 65281, 90751, 998001 * 0 + 85489]
BIGPSEUDO = [(3215031751, 151), (3474749660383, 1303), (341550071728321, 10670053), (3825123056546413051, 149491)]


def small_cert(n):
  return {'how': 'small'}


def prod_cert(x, y):
  return {'how': 'product', 'x': limbs(x), 'y': limbs(y)}


def lucas(rng, bits):
  while True:
    qs, n = [2], 2
    while n.bit_length() < bits:
      q = rng.choice([2, 3, 5, 7, 11, 13, 4093, 10007, 30011, 32003, 39989])
      if rng.random() < .7:
        q = rng.randrange(1000, 40000)
        while not pm.is_prime(q):
          q += 1
      qs.append(q)
      n *= q
    p = n + 1
    if pm.is_prime(p):
      a = 2
      while any(pow(a, (p - 1) // q, p) == 1 for q in set(qs)):
        a += 1
      qs.sort()
      return p, {'how': 'lucas', 'a': limbs(a), 'qs': qs, 'cof': [limbs((p - 1) // q) for q in qs]}


def next_prime(n):
  n |= 1
  while not pm.is_prime(n):
    n += 2
  return n


def P29(s, rng, sid, tier):
  q = tier == 'quick'
  if sid < 8:
    # exhaustive ranges
    top = 1600 if q else 12000
    step = top // 8
    for n in list(range(sid * step, (sid + 1) * step)) + ([-7, -3, -2, -1] if sid == 0 else []):
      s.do('prime', n, c=small_cert(n))
      if n % 4 == 3 or n % 7 == 0:
        s.do('good', n, c=small_cert(n))
      if n > 0:
        s.do('decompose', n)
        s.do('parity', n)
    return
  if sid < 12:
    # every base for small odd n
    for n in range(5 + 2 * (sid - 8), 90 if q else 300, 8):
      e, r = 0, n - 1
      while r % 2 == 0:
        e, r = e + 1, r // 2
      for a in range(2, n - 1):
        if n < 60 or a % 3 == 0:
          s.do('witness', a, n, e, r)
    return
  # composites chosen to fool a weak test
  for n in rng.sample(CARMICHAEL + PSEUDO, 8):
    s.do('prime', n, c=small_cert(n))
    s.do('good', n, c=small_cert(n))
  n, d = rng.choice(BIGPSEUDO)
  if n % d == 0:
    s.do('prime', n, c=prod_cert(d, n // d))
  for _ in range(4):
    b = rng.choice([14, 20, 32, 64, 128])
    p1 = next_prime(rng.getrandbits(b) | 1 << (b - 1))
    kind = rng.randrange(4)
    if kind == 0:
      x, y = p1, p1
    elif kind == 1:
      y = 2 * p1 - 1
      while not pm.is_prime(y):
        p1 = next_prime(p1 + 2)
        y = 2 * p1 - 1
      x = p1
    elif kind == 2:
      x, y = p1, next_prime(rng.getrandbits(b) | 1)
    else:
      x, y = 2, p1
    s.do('prime', x * y, c=prod_cert(x, y))
    s.do('good', x * y, c=prod_cert(x, y))
    s.do('decompose', x * y - 1)
    s.do('decompose', (x * y) << rng.randrange(40))
    s.do('parity', x * y)
  for bits in ([40, 72] if q else [40, 72, 110, 140]):
    p, cert = lucas(rng, bits)
    s.do('prime', p, c=cert)
    s.do('prime', p, c=cert, _acc=40)
    s.do('good', p, c=cert)
    e, r = 0, p - 1
    while r % 2 == 0:
      e, r = e + 1, r // 2
    s.do('witness', rng.randrange(2, p - 1), p, e, r)
    n2 = p * 1009
    e, r = 0, n2 - 1
    while r % 2 == 0:
      e, r = e + 1, r // 2
    s.do('witness', rng.randrange(2, n2 - 1), n2, e, r)
  # good primes are also found by their residue
  p, i = 3, 0
  while i < 4:
    p = next_prime(rng.randrange(10**6, 10**9))
    s.do('good', p, c=small_cert(p))
    s.do('prime', p, c=small_cert(p))
    i += 1
  for _ in range(6):
    s.do('findgood', rng.choice([2, 3, 4, 5, 6, 8, 12, 16, 20, 24]))
  s.do('findgood', rng.choice([40, 64, 128, 256]))
  for _ in range(6):
    s.do('modulus', rng.choice([2, 3, 4, 5, 6, 8, 10, 12, 14]), w={'p': 0, 'q': 0})
  s.do('moduli', rng.choice([4, 5, 6, 8, 10]), 40, w=[])
  s.do('bigmodulus', rng.choice([32, 64, 128]))
  for _ in range(4):
    b = rng.choice([2, 3, 4, 6, 8, 12, 14])
    xs = [rng.getrandbits(3 * b + 8) for _ in range(24)] + [0, 1, 2]
    s.do('bbs', b, xs, w={'p': 0, 'q': 0})
  for _ in range(6):
    s.do('parity', rng.getrandbits(rng.choice([1, 8, 31, 33, 64, 200, 512])))


# ---------------------------------------------------------------------------
# P30
def rand_graph(rng, n, extra=3):
  es = []
  for v in range(2, n + 1):
    es.append([rng.randrange(1, v), v] if rng.random() < .5 else [v, rng.randrange(1, v)])
  for _ in range(rng.randrange(extra + 1)):
    a, b = rng.sample(range(1, n + 1), 2)
    es.append([a, b])
  rng.shuffle(es)
  return es


def relabel(g, L):
  return [[L[a - 1] + 1, L[b - 1] + 1] for a, b in g]


def P30(s, rng, sid, tier):
  kind = sid % 4
  if kind == 0:
    # every map on three vertices, for both challenges
    n = 3
    g1 = [list(e) for e in rng.choice([[[1, 2], [2, 3]], [[1, 2], [1, 3]], [[1, 2], [2, 3], [3, 1]], [[2, 1], [1, 3], [2, 3]], [[3, 1]], [[1, 2], [3, 3]]])]
    iso = rng.sample(range(n), n)
    g2 = relabel(g1, iso) if rng.random() < .7 else rand_graph(rng, n)
    h = rng.choice([g1, g2, relabel(g1, rng.sample(range(n), n)), rand_graph(rng, n), [[1, 1]] * len(g1)])
    if s.do('zmake', g1, g2, iso, _who='verifier') is None:
      g2 = g1
    for t in itertools.product(range(1, n + 1), repeat=n):
      for ch in (1, 2):
        s.do('zaccepts', g1, g2, list(t), ch, h)
    return
  if kind == 1:
    n = rng.choice([2, 3, 3])
    g1 = rand_graph(rng, n, 1)
    iso = rng.sample(range(n), n)
    g2 = relabel(g1, iso)
    cnt = 500
    s.do('ztrans', g1, g2, iso, sim=False, count=cnt)
    s.do('ztrans', g1, g2, iso, sim=True, count=cnt)
    s.do('zperms', n, count=200)
    s.do('zchoices', g1, g2, count=60)
    return
  n = rng.choice([3, 4, 5, 6, 8, 11])
  g1 = rand_graph(rng, n, 3 if n < 8 else 8)
  iso = rng.sample(range(n), n)
  g2 = relabel(g1, iso)
  other = rand_graph(rng, n)
  for g in (g1, g2, other, [[1, 1]], [[4, 2], [1, 9]]):
    s.do('zcount', g)
  s.do('zpf', iso)
  s.do('zinv', iso)
  s.do('zapply', g1, [x + 1 for x in iso])
  s.do('zapply', g1, [rng.randrange(1, n + 1) for _ in range(n)])
  s.do('zperm', n)
  bigger = g1 + [[1, n + 1]]
  for a, b in ((g1, g2), (g1, bigger), (bigger, g1), (g1, other)):
    s.do('zmake', a, b, iso, _who='prover')
    s.do('zmake', a, b, iso, _who='verifier')
  for claim2 in (g2, other):
    r = s.do('zsend', g1, claim2, iso)
    if r is None:
      return
    L, H = list(r[0]), [list(e) for e in r[1]]
    for ch in (1, 2):
      t = s.do('zprove', g1, claim2, iso, L, ch)
      if t is None:
        continue
      s.do('zaccepts', g1, claim2, t, ch, H)
      s.do('zaccepts', g1, claim2, t, 3 - ch, H)
      for _ in range(3):
        u = list(t)
        i, j = rng.sample(range(n), 2)
        if rng.random() < .5:
          u[i], u[j] = u[j], u[i]
        else:
          u[i] = u[j]
        s.do('zaccepts', g1, claim2, u, ch, H)
      # another first message
      s.do('zaccepts', g1, claim2, t, ch, H[:-1])
      s.do('zaccepts', g1, claim2, t, ch, H + [H[0]])
      s.do('zaccepts', g1, claim2, t, ch, H[::-1])
      s.do('zaccepts', g1, claim2, t, ch, [[b, a] for a, b in H])
  # a merged graph: many edges onto few vertices
  disjoint = [[2 * i + 1, 2 * i + 2] for i in range(len(g1))]
  flat = [0] * (2 * len(g1))
  for i, (a, b) in enumerate(g1):
    flat[2 * i], flat[2 * i + 1] = a, b
  s.do('zaccepts', g1, g2, flat, 1, disjoint)
  s.do('zruns', g1, g2, iso, count=40)
  wrong = rng.sample(range(n), n)
  s.do('zruns', g1, g2, wrong, count=40)
  s.do('zruns', g1, other, iso, count=40)
  for a, b in ((g1, g2), (g2, g1)):
    s.do('zsim', a, b, n=n)
  s.do('zsim', g1, other, n=n)
  s.do('zconv', g1, g2, iso)
  s.do('zconv', g1, other, iso)


# ---------------------------------------------------------------------------
# P31
def P31(s, rng, sid, tier):
  f, _ = rand_fn(rng, tier, small=sid % 3 != 0)
  if sid % 3 == 0:
    f = sq(good_prime_bits(rng, 40) * good_prime_bits(rng, 41))
  M, img = f['_M'], one_way(f)
  h = 'parity'
  kw = dict(_f=f, h=h)
  n = rng.choice([2, 3, 4, 5, 6])
  large = sid % 3 != 0 and rng.random() < .3
  if large:
    n = rng.choice([7, 8, 9, 10, 12])
  col = [rng.randrange(3) for _ in range(n)]
  # a graph whose vertices all have an edge, proper or nearly proper
  for _ in range(20):
    if len(set(col)) > 1:
      break
    col = [rng.randrange(3) for _ in range(n)]
  g = []
  for v in range(1, n + 1):
    ok = [u for u in range(1, n + 1) if col[u - 1] != col[v - 1]]
    if not ok:
      ok = [u for u in range(1, n + 1) if u != v]
    g.append(rng.sample([v, rng.choice(ok)], 2) if rng.random() < .5 else [v, rng.choice(ok)])
  if rng.random() < .5:
    g.append(rng.sample(range(1, n + 1), 2))      # maybe a monochromatic edge
  if large:
    pairs = [[u, v] for u in range(1, n + 1) for v in range(1, n + 1) if col[u - 1] != col[v - 1]]
    g += rng.sample(pairs, min(len(pairs), rng.randrange(8)))
  r = s.do('tcommit', g, col, **kw)
  for u in range(1, n + 1):
    for w in range(1, n + 1):
      if u != w and (rng.random() < 16 / n**2 or (tier != 'quick' and n < 7)):
        s.do('treveal', g, u, w, **kw)
  if r is None or len(r) != 2:
    return
  coms, secs = [[list(c) for c in x] for x in r[0]], [list(x) for x in r[1]]
  for _ in range(4):
    s.do('taccept', g, coms, secs, swap=False, **kw)
  s.do('taccept', g, coms, secs, swap=True, **kw)

  def commit(sec, colour):
    b = [colour >> 1 & 1, colour & 1]
    return [[img(x), bin(x).count('1') % 2 ^ y] for x, y in zip(sec, b)]
  # dishonest provers: any colours (0..3), matching or altered openings
  for _ in range(8):
    cols = [rng.choice([0, 1, 2, 3, 3]) for _ in range(n)]
    ss = [[img(rng.randrange(M)), img(rng.randrange(M))] for _ in range(n)]
    cc = [commit(a, b) for a, b in zip(ss, cols)]
    how = rng.randrange(5)
    if how == 0:
      for v in range(n):
        if rng.random() < .5:
          ss[v][rng.randrange(2)] = img(rng.randrange(M))
    elif how == 1:
      for v in range(n):
        if rng.random() < .5:
          cc[v][rng.randrange(2)][1] ^= 1
    elif how == 2:
      for v in range(n):
        if rng.random() < .5:
          cc[v][rng.randrange(2)][0] = img(rng.randrange(M) + 1)
    elif how == 3:
      for v in range(n):
        if rng.random() < .4:
          ss[v] = ss[v][::-1]
        elif rng.random() < .3:
          ss[v] = ss[v][:1]
    s.do('taccept', g, cc, ss, swap=False, **kw)
    s.do('taccept', g, cc, ss, swap=rng.random() < .3, **kw)
  # all colours equal
  ss = [[img(rng.randrange(M)), img(rng.randrange(M))] for _ in range(n)]
  k = rng.randrange(4)
  s.do('taccept', g, [commit(a, k) for a in ss], ss, swap=False, **kw)
  if sid % 4 == 0:
    tri = rng.choice([[[1, 2], [2, 3], [3, 1]], [[2, 1], [3, 1], [3, 4]], [[1, 2]]])
    s.do('tedges', tri, count=150, **kw)
    nn = max(max(e) for e in tri)
    good = {2: [0, 1], 3: [0, 1, 2], 4: [0, 1, 2, 1]}[nn]
    s.do('tpairs', tri, good, count=150, **kw)
    s.do('truns', tri, good, _how='run', sp=rng.choice([8, 16, 32, 64]), count=10)
    s.do('truns', tri, good, _how='default', count=3)
    badc = list(good)
    badc[tri[0][0] - 1] = badc[tri[0][1] - 1]
    s.do('truns', tri, badc, _how='run', sp=rng.choice([8, 16, 32]), count=60)


# ---------------------------------------------------------------------------
# P33
def P33(s, rng, sid, tier):
  m, mod = rng.choice([(4, [1, 1, 0, 0, 1]), (3, [1, 1, 0, 1]), (5, [1, 0, 1, 0, 0, 1]), (8, [1, 1, 0, 1, 1, 0, 0, 0, 1]),
                       (17, [1, 0, 0, 1] + [0] * 13 + [1])])
  s.ctx.zp(2)
  s.ctx.poly('Z2')
  rid = s.ctx.gf(2, m, mod)
  s.ctx.poly(rid)
  w = rng.choice([1, 2, 2, 3])
  s.ctx.multi(rid, w)
  s.ctx.multi(rid, 2 * w)

  def el():
    return s.elem(rid, [rng.randrange(2) for _ in range(m)])
  fs = []
  deg = rng.choice([1, 1, 2, 3, 4, 5]) if m <= 8 else rng.choice([1, 2])
  for j in range(w):
    t = {}
    for _ in range(rng.choice([1, 2])):
      e = [0] * w
      for _ in range(rng.randrange(deg + 1)):
        e[rng.randrange(w)] += 1
      t[tuple(e)] = [rng.randrange(2) for _ in range(m)]
    if j == 0:
      e = [0] * w
      e[rng.randrange(w)] = deg
      t[tuple(e)] = [1]
    fs.append(s.mk('newm', [[list(e), c] for e, c in t.items() if any(c)], r=rid, n=w))
  s.mk('list', *fs)
  F = s.fresh('fs')
  s.do('list', *fs, d=F)
  inp = [el() for _ in range(w)]
  I = s.fresh('in')
  s.do('list', *inp, d=I)
  k = rng.choice([5, 1, 2, 3, 8])
  P = dict(r=rid, w=w, k=k, t=8)
  s.keep(Ref(F), Ref(I))
  s.do('apr', Ref(F), Ref(I), d='apr', _default=True, **P)
  if 'apr' not in s.regs:
    return
  s.do('pick', Ref('apr'), d='zeta', i=5)
  s.drop('apr')
  for j in range(w):
    s.do('pick', Ref(I), d='i%d' % j, i=j)
  B = [[0, j, Ref('i%d' % j)] for j in range(w)]
  s.do('zs', Ref('zeta'), B, _own=True, **P)
  s.do('eps', Ref('zeta'), B, _own=True, **P)
  s.do('rates', Ref(F), B, _own=True, **P)
  # other boundary constraints
  for _ in range(3):
    B = []
    for j in range(w):
      ps = rng.sample(range(2**w - 1), rng.randrange(1, 2**w))
      if rng.random() < .15:
        ps = []
      for i in ps:
        n = s.fresh('b')
        s.do('newe', [rng.randrange(2) for _ in range(m)], d=n, r=rid)
        B.append([i + rng.choice([0, 0, 0, 2**w - 1]), j, Ref(n)])
    rng.shuffle(B)
    s.do('zs', Ref('zeta'), B, **P)
    s.do('eps', Ref('zeta'), B, **P)
    s.do('rates', Ref(F), B, **P)
    for k2 in [x for x in s.regs if x.startswith('b')]:
      s.drop(k2)


GEN = dict(P03=P03, P19=P19, P28=P28, P29=P29, P30=P30, P31=P31, P33=P33)
COUNT = {'P03': (32, 200), 'P19': (40, 160), 'P28': (32, 160), 'P29': (24, 80), 'P30': (32, 160), 'P31': (32, 160), 'P33': (16, 80)}
REPEATED = ['P19', 'P28', 'P29', 'P30', 'P31', 'P33']


def P32(s, rng, sid, tier):
  s.twice = True
  GEN[REPEATED[sid % len(REPEATED)]](s, rng, sid // len(REPEATED), 'quick')


GEN['P32'] = P32
COUNT['P32'] = (36, 180)
KNOWN = {'P19': known_eq, 'P28': known_bind}
KNOWN_SID = 9000


def sessions(pid, tier):
  return list(range(COUNT[pid][0 if tier == 'quick' else 1])) + ([KNOWN_SID] if pid in KNOWN else [])


def make(pid, tier, sid, rng, out):
  return MiscSession(sid, rng, out)


def run(s, pid, tier, sid, rng):
  if sid == KNOWN_SID:
    KNOWN[pid](s)
  else:
    GEN[pid](s, rng, sid, tier)
