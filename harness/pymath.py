"""A small independent polynomial toolkit, used only to *choose* inputs."""
import itertools


def strip(a):
  a = list(a)
  while a and a[-1] == 0:
    a.pop()
  return a


def pmul(a, b, p):
  if not a or not b:
    return []
  out = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      out[i + j] = (out[i + j] + x * y) % p
  return strip(out)


def pmod(a, b, p):
  a = strip([x % p for x in a])
  inv = pow(b[-1], p - 2, p)
  while len(a) >= len(b):
    c = a[-1] * inv % p
    s = len(a) - len(b)
    for i, y in enumerate(b):
      a[s + i] = (a[s + i] - c * y) % p
    a = strip(a)
  return a


_cache = {}


def irreducible(a, p):
  a = strip([x % p for x in a])
  n = len(a) - 1
  if n < 1:
    return False
  key = (tuple(a), p)
  if key in _cache:
    return _cache[key]
  # Ben-Or: gcd(x^(p^i) - x, a) = 1 for i <= n/2
  r = True
  t = pmod([0, 1], a, p)
  for _ in range(n // 2):
    t = ppow(t, p, a, p)
    d = list(t) + [0] * (2 - len(t))
    d[1] = (d[1] - 1) % p
    if len(pgcd(a, strip(d), p)) != 1:
      r = False
      break
  _cache[key] = r
  return r


def ppow(b, e, m, p):
  out = pmod([1], m, p)
  while e:
    if e & 1:
      out = pmod(pmul(out, b, p), m, p)
    b = pmod(pmul(b, b, p), m, p)
    e >>= 1
  return out


def pgcd(a, b, p):
  while b:
    a, b = b, pmod(a, b, p)
  return a


def factor(n):
  out, d = [], 2
  while d * d <= n:
    if n % d == 0:
      out.append(d)
      while n % d == 0:
        n //= d
    d += 1
  if n > 1:
    out.append(n)
  return out


def primitive(a, p):
  n = len(a) - 1
  if not irreducible(a, p):
    return False
  N = p**n - 1
  x = pmod([0, 1], a, p)
  if not x:
    return False
  return all(ppow(x, N // q, a, p) != [1] for q in factor(N))


def random_irreducible(rng, p, m, monic=True):
  while True:
    a = [rng.randrange(p) for _ in range(m)] + [1]
    if irreducible(a, p):
      if not monic:
        c = rng.randrange(1, p)
        a = [x * c % p for x in a]
      return a


def generator(rng, mod, p):
  """A generator of the multiplicative group of GF(p)[x]/mod."""
  n = len(mod) - 1
  fs = factor(p**n - 1)
  while True:
    g = strip([rng.randrange(p) for _ in range(n)])
    if g and all(ppow(g, (p**n - 1) // f, mod, p) != [1] for f in fs):
      return g


def minpoly(b, mod, p):
  """The minimal polynomial over GF(p) of b in GF(p)[x]/mod."""
  conj, c = [], b
  while c not in conj:
    conj.append(c)
    c = ppow(c, p, mod, p)
  out = [[1]]                      # coefficients are residues
  for c in conj:
    neg = [(-x) % p for x in c]
    nxt = [[] for _ in range(len(out) + 1)]
    for i, a in enumerate(out):
      lo = pmod(pmul(a, neg, p), mod, p)
      for j, v in ((i, lo), (i + 1, a)):
        w = [0] * max(len(nxt[j]), len(v))
        for k, y in enumerate(nxt[j]):
          w[k] += y
        for k, y in enumerate(v):
          w[k] += y
        nxt[j] = strip([y % p for y in w])
    out = nxt
  return [a[0] if a else 0 for a in out]


def primitive_root(p):
  fs = factor(p - 1)
  g = 2
  while any(pow(g, (p - 1) // q, p) == 1 for q in fs):
    g += 1
  return g if p > 2 else 1


def is_prime(n):
  if n < 2:
    return False
  for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    if n % q == 0:
      return n == q
  d, s = n - 1, 0
  while d % 2 == 0:
    d //= 2
    s += 1
  for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(s - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True
