"""An independent prover and the hash oracle, used to *produce* proofs (honest
and malicious) and to attach the oracle's answers to recorded proofs.  It
never judges anything: verdicts come from the TLA+ specification."""
import hashlib


def H(b):
  return hashlib.blake2s(b).digest()


def HL(leaf):
  return H(b'\0' + leaf)


def HN(a, b):
  return H(b'\1' + a + b)


def enc(v):
  return int(v).to_bytes(32, 'big')


def slot(i, n):
  return i // (n // 4) + 4 * (i % (n // 4))


class Tree(object):
  def __init__(self, leaves):
    n = len(leaves)
    self.n = n
    t = [b''] * (2 * n)
    for i, x in enumerate(leaves):
      t[n + slot(i, n)] = x
    d = t[:n] + [HL(x) for x in t[n:]]
    for k in range(n - 1, 0, -1):
      t[k] = d[k] = HN(d[2 * k], d[2 * k + 1])
    self.t = t
    self.root = t[1]

  def branch(self, i):
    k = self.n + slot(i, self.n)
    out = [self.t[k]]
    while k > 1:
      out.append(self.t[k ^ 1])
      k //= 2
    return out

  def short_branch(self, i):
    """A branch that opens an inner node along the path a half-size tree would use."""
    m = self.n // 2
    k = slot(i, m) % m + m
    out = [self.t[k]]
    while k > 1:
      out.append(self.t[k ^ 1])
      k //= 2
    return out


def extend(data, count):
  hs = []
  while len(data) < 4 * count:
    d = H(data[-32:])
    hs.append([list(data[-32:]), list(d)])
    data += d
  return data, hs


def indices(root, m, count, e):
  data, _ = extend(root, count)
  k = m if e == 0 else m - (m + e - 1) // e
  out = []
  for i in range(count):
    x = int.from_bytes(data[4 * i:4 * i + 4], 'big') % k
    out.append(x if e == 0 else (x // (e - 1)) * e + x % (e - 1) + 1)
  return out


def interp(xs, ys, p):
  """coefficients of the interpolant, lowest degree first"""
  n = len(xs)
  full = [1]
  for x in xs:
    nf = [0] * (len(full) + 1)
    for i, c in enumerate(full):
      nf[i + 1] = (nf[i + 1] + c) % p
      nf[i] = (nf[i] - c * x) % p
    full = nf
  out = [0] * n
  for x, y in zip(xs, ys):
    if y % p == 0:
      continue
    q = [0] * n
    c = 0
    for i in range(n, 0, -1):
      c = (full[i] + c * x) % p
      q[i - 1] = c
    d = 0
    for c in reversed(q):
      d = (d * x + c) % p
    k = y * pow(d, -1, p) % p
    for i in range(n):
      out[i] = (out[i] + k * q[i]) % p
  while out and out[-1] == 0:
    out.pop()
  return out


def ev(f, x, p):
  y = 0
  for c in reversed(f):
    y = (y * x + c) % p
  return y


def powers(g, p):
  out = [1]
  while True:
    x = out[-1] * g % p
    if x == 1:
      return out
    out.append(x)


def fri_prove(vals, g, m, excl, samples, p, hook=None):
  """The protocol's prover on arbitrary committed values.
  hook(level, column) may return another column to commit to."""
  proof = []
  level = 0
  while m > 16:
    n = len(vals)
    q = n // 4
    xs = powers(g, p)
    t = Tree([enc(v) for v in vals])
    s = int.from_bytes(t.root, 'big') % p
    col = []
    for i in range(q):
      f = interp([xs[i + q * j] for j in range(4)], [vals[i + q * j] for j in range(4)], p)
      col.append(ev(f, s, p))
    if hook:
      col = hook(level, col) or col
    t2 = Tree([enc(v) for v in col])
    ys = indices(t2.root, q, samples, excl)
    proof.append([t2.root, [[t2.branch(y)] + [t.branch(y + q * j) for j in range(4)] for y in ys]])
    vals, g, m, level = col, pow(g, 4, p), m // 4, level + 1
  proof.append([enc(v) for v in vals])
  return proof


# ---------------------------------------------------------------------------
# attaching the oracle
class Intern(object):
  def __init__(self):
    self.ids = {}
    self.content = {}

  def id(self, b):
    b = bytes(b)
    return self.ids.setdefault(b, len(self.ids) + 1)

  def show(self, b):
    k = self.id(b)
    self.content[k] = list(b)
    return k

  def table(self):
    return [self.content.get(k, []) for k in range(1, len(self.ids) + 1)]


def branch_rec(I, br, i, n):
  k = n + slot(i, n)
  leaf = I.show(br[0])
  v = HL(br[0])
  path = []
  for depth, s in enumerate(br[1:]):
    if depth == 0:
      s = HL(s)
    a, b = HN(v, s), HN(s, v)
    path.append([I.id(v), I.id(s), I.id(a), I.id(b)])
    v = b if k % 2 else a
    k //= 2
  return {'leaf': leaf, 'dig': I.id(HL(br[0])), 'path': path}


def norm32(b):
  b = bytes(b).lstrip(b'\0')
  return b'\0' * (32 - len(b)) + b


def fri_rec(I, proof, root, g, n, m, excl, samples, p, el=int):
  comps = []
  I.show(root)
  r = root
  for root2, brs in proof[:-1]:
    q = n // 4
    ys = indices(root2, q, samples, excl)
    rec = []
    for y, b in zip(ys, brs):
      rec.append({'col': branch_rec(I, b[0], y, q),
                  'row': [branch_rec(I, b[1 + j], y + q * j, n) for j in range(4)]})
    comps.append({'root': I.show(root2), 'data': list(extend(bytes(root2), samples)[0]), 'brs': rec})
    r, g, n, m = root2, pow(g, 4, p), q, m // 4
  vals = [bytes(x) for x in proof[-1]]
  L = len(vals)
  leaves = [norm32(v) for v in vals]
  if L >= 4 and L & (L - 1) == 0:
    t = Tree(leaves)
    top, bottom = t.root, t.t[L:]
  else:
    top, bottom = b'no tree', leaves
  pts = [i for i in range(L) if not excl or i % excl][:m]
  xs = [pow(g, i, p) for i in pts]
  poly = interp(xs, [int.from_bytes(vals[i], 'big') % p for i in pts], p) if len(set(xs)) == len(xs) else []
  return {'comps': comps, 'fin': {'vals': [list(v) for v in vals], 'root': I.id(top),
                                  'leaves': [list(b) for b in bottom], 'poly': [el(v) for v in poly]}}


TAGS4 = [b'0x01', b'0x02', b'0x03', b'0x04']


def tag(num, i):
  return TAGS4[i] if num <= 4 else ('0x0%d' % i).encode()


def ks_oracle(root, num):
  return [[list(root + tag(num, i)), list(H(root + tag(num, i)))] for i in range(num)]


def ks_ints(root, num):
  return [int.from_bytes(H(root + tag(num, i)), 'big') for i in range(num)]


def stark_rec(proof, c, el=int):
  """c: dict(p, g, steps, ext, width, samples, deg)"""
  m_root, l_root, branches, fri = proof
  I = Intern()
  prec = c['steps'] * c['ext']
  pos = indices(l_root, prec, c['samples'], c['ext'])
  rec = {'mroot': I.show(m_root), 'lroot': I.show(l_root), 'data': list(extend(bytes(l_root), c['samples'])[0]),
         'ks': [k[1] for k in ks_oracle(m_root, 4)], 'lks': [k[1] for k in ks_oracle(m_root, c['width'])]}
  brs = []
  for i, x in enumerate(pos):
    if 3 * i + 2 >= len(branches):
      break
    brs.append([branch_rec(I, branches[3 * i], x, prec),
                branch_rec(I, branches[3 * i + 1], (x + c['ext']) % prec, prec),
                branch_rec(I, branches[3 * i + 2], x, prec)])
  rec['brs'] = brs
  rec['fri'] = fri_rec(I, fri, l_root, c['g'], prec, c['steps'] * c['deg'], c['ext'], 40, c['p'], el)
  rec['bytes'] = I.table()
  return rec


def stark_prove(c, P, D, B, L, branches_fix=None, hook=None):
  """P, D, B: per dimension, evaluation vectors (or a function of m_root);
  L: evaluation vector of the combination, or a function of m_root."""
  prec = c['steps'] * c['ext']
  w = c['width']
  mt = Tree([b''.join(enc(v[i]) for v in P + D + B) for i in range(prec)])
  L = L(mt.root)
  lt = Tree([enc(v) for v in L])
  pos = indices(lt.root, prec, c['samples'], c['ext'])
  brs = []
  for x in pos:
    brs += [mt.branch(x), mt.branch((x + c['ext']) % prec), lt.branch(x)]
  fri = fri_prove(L, c['g'], c['steps'] * c['deg'], c['ext'], 40, c['p'], hook)
  return [mt.root, lt.root, brs, fri]


def combine(c, P, D, B, mroot, order=(0, 1, 2, 3), use_l=True):
  p = c['p']
  prec = c['steps'] * c['ext']
  pw = pow(c['g'], c['steps'] * (prec - 1), p)
  ks = ks_ints(mroot, 4)
  k = [ks[o] for o in order]
  lk = ks_ints(mroot, c['width'])
  out = []
  for i in range(prec):
    t = 0
    for j in range(c['width']):
      o = D[j][i] + P[j][i] * (k[0] + k[1] * pw) + B[j][i] * (k[2] + k[3] * pw)
      t += o * (1 + (lk[j] * pw if use_l else 0))
    out.append(t % p)
  return out
