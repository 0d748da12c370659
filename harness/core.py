"""Shared machinery: recording what the real code does as TLA+ traces, and
running TLC on traces and on design specifications.

A check is a set of *sessions*.  A session drives the real code in /repo and
records one event per public call: the operation, its arguments (literals or
references to registers), its result or exception, and the value of every
live register after the call.  The TLA+ trace specification replays the
events from the argument values alone and judges every event; Python only
transports the verdicts.
"""
import fractions, hashlib, json, multiprocessing, os, random, re, resource
import shutil, signal, subprocess, sys, tempfile, time, traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8

OP_TIMEOUT = 90        # seconds of processor time for one call into the code under test
OP_WALL = 300          # and of elapsed time
GAP_CPU, GAP_WALL = 150, 600   # the same between two recorded calls (building fields and inputs)


class OpTimeout(BaseException):
  pass


class Ref(object):
  def __init__(self, name):
    self.name = name


def rng_for(pid, tier, seed, sid):
  h = hashlib.sha256(('%s/%s/%s' % (pid, seed, sid)).encode()).digest()
  return random.Random(int.from_bytes(h[:8], 'big'))


# ---------------------------------------------------------------------------
# encoding of values
def enc_int(x):
  if -2**30 < x < 2**30:
    return {'t': 'i', 'v': x}
  return {'t': 'I', 'neg': x < 0, 'v': limbs(abs(x))}


def limbs(x, n=None):
  out = []
  while x:
    out.append(x & 255)
    x >>= 8
  if n is not None:
    out += [0] * (n - len(out))
  return out


def bad(why):
  return {'t': 'bad', 'v': str(why)[:200]}


class Registry(object):
  """Maps the real classes of this session to the rings of the specification."""

  def __init__(self):
    self.rings = {}       # id -> ring record for TLA+
    self.classes = {}     # class -> ('e', id) | ('p', id) | ('m', id, n) | ('q', p)
    self.field = {}       # id -> class
    self.enc = []         # extra encoders: fn(x, reg) -> dict or None

  def add_field(self, rid, cls, ring):
    self.rings[rid] = ring
    self.classes[cls] = ('e', rid)
    self.field[rid] = cls

  def enc_elem(self, x, rid):
    R = self.rings[rid]
    if R['k'] == 'zp':
      v = x if type(x) is int else int(x)
      if not 0 <= v < R['p']:
        return bad('representative %d' % v)
      return {'t': 'e', 'r': rid, 'v': v}
    if R['k'] == 'big':
      v = int(x)
      n = len(R['p'])
      if not 0 <= v < 256**n:
        return bad('representative %d' % v)
      return {'t': 'e', 'r': rid, 'v': limbs(v, n)}
    if R['k'] == 'gf':
      c = [int(a) for a in x.poly.coefficients]
      if len(c) > R['m'] or any(not 0 <= a < R['p'] for a in c):
        return bad('unreduced element %s' % c)
      if c and c[-1] == 0:
        return bad('unstripped element %s' % c)
      return {'t': 'e', 'r': rid, 'v': c + [0] * (R['m'] - len(c))}
    raise ValueError(R['k'])

  def encode(self, x, depth=0):
    if depth > 12:
      return bad('nesting')
    if x is None:
      return {'t': 'none'}
    if type(x) is Digest:
      return {'t': 'y', 'v': list(digest(x.x))}
    if isinstance(x, Ref):
      return {'t': 'ref', 'v': x.name}
    if type(x) is bool:
      return {'t': 'b', 'v': x}
    if type(x) is int:
      return enc_int(x)
    if type(x) in (bytes, bytearray):
      return {'t': 'y', 'v': list(x)}
    if type(x) in (list, tuple):
      return {'t': 'l', 'v': [self.encode(a, depth + 1) for a in x]}
    if type(x) is str:
      return {'t': 's', 'v': x}
    if type(x) is float:
      f = fractions.Fraction(x) if x == x and abs(x) != float('inf') else None
      if f is None:
        return bad('float')
      return {'t': 'f', 'n': limbs(abs(f.numerator)), 'd': limbs(f.denominator), 'neg': f < 0}
    k = self.classes.get(type(x))
    if k is not None:
      if k[0] == 'e':
        return self.enc_elem(x, k[1])
      if k[0] == 'p':
        cs = [self.encode(c) for c in x.coefficients]
        if any(c['t'] != 'e' or c['r'] != k[1] for c in cs):
          return bad('polynomial coefficients %r' % (cs,))
        return {'t': 'p', 'r': k[1], 'v': [c['v'] for c in cs]}
      if k[0] == 'm':
        ps = []
        for e, c in x.coefficients.items():
          c = self.encode(c)
          if c['t'] != 'e' or c['r'] != k[1] or type(e) is not tuple or len(e) != k[2] \
             or any(type(a) is not int or not 0 <= a < 2**30 for a in e):
            return bad('monomial %r %r' % (e, c))
          ps.append([list(e), c['v']])
        ps.sort()
        return {'t': 'm', 'r': k[1], 'n': k[2], 'v': ps}
      if k[0] == 'pm':
        cs = [self.encode(c) for c in x.coefficients]
        if any(c['t'] != 'm' or c['r'] != k[1] or c['n'] != k[2] for c in cs):
          return bad('coefficients %r' % (cs,))
        return {'t': 'pm', 'r': k[1], 'n': k[2], 'v': [c['v'] for c in cs]}
      if k[0] == 'q':
        m, n, p = x.m, x.n, k[1]
        if type(m) is not int or type(n) is not int or not 0 <= m < p or not 0 <= n < p:
          return bad('fraction %r/%r' % (m, n))
        return {'t': 'q', 'p': p, 'v': [m, n]}
    for f in self.enc:
      y = f(x, self)
      if y is not None:
        return y
    return bad('value of type %s' % type(x).__name__)


def spoil(x, seen=None):
  """Empty every list of a result nobody needs any more."""
  seen = set() if seen is None else seen
  if type(x) in (list, tuple, dict) and id(x) not in seen:
    seen.add(id(x))
    for y in (x.values() if type(x) is dict else x):
      spoil(y, seen)
    if type(x) is list:
      x[:] = [None]
    elif type(x) is dict:
      x.clear()


def copied(x):
  return [copied(y) for y in x] if type(x) is list else x


CURRENT = [None]


def digest(x):
  return hashlib.sha256(repr(x).encode()).digest()


class Digest(object):
  """Stands for the present value of a big argument."""
  def __init__(self, x):
    self.x = x


def watched(x, big=False):
  """x is passed to the code under test: record whether it is changed."""
  s = CURRENT[0]
  if s is not None and s.twice and not s.rehearsal:
    y = Digest(x) if big else x
    s.watch.append((s.reg.encode(y), y))
  return x


def kept(key, cls, *a):
  """An object of the code under test that lives on from call to call (most
  times), as provers, verifiers and solvers do."""
  s = CURRENT[0]
  k = (key, cls.__name__) + tuple(id(x) if isinstance(x, type) or callable(x) else
                                  repr([id(y) for y in x] if type(x) is list and x and callable(x[0]) else x) for x in a)
  if k not in s.objects or s.coin.random() < .2:
    s.objects[k] = (cls(*a), a)
  return s.objects[k][0]


def on_alarm(*a):
  arm(GAP_CPU, GAP_WALL)
  raise OpTimeout()


def arm(cpu, wall):
  signal.setitimer(signal.ITIMER_PROF, cpu)
  signal.setitimer(signal.ITIMER_REAL, wall)


class Session(object):
  twice = False         # rehearse every call and spoil what it returned first
  rehearsal = False

  def __init__(self, sid, seed_rng, reg, out, ops):
    self.sid, self.rng, self.reg, self.out, self.ops = sid, seed_rng, reg, out, ops
    self.regs = {}
    self.objects, self.coin = {}, random.Random(sid)
    self.i = 0
    self.timeouts = 0
    self.emit({'op': 'init', 'a': [], 'd': '', 'r': {'t': 'none'}})

  def emit(self, ev):
    regs = {}
    for k, x in self.regs.items():
      try:
        regs[k] = self.reg.encode(x)
      except BaseException as e:
        regs[k] = bad('encoding: %r' % e)
    ev.update(s=self.sid, i=self.i, regs=regs)
    if not ev.get('P'):
      ev['P'] = {'_': 0}
    self.i += 1
    self.out.append(ev)
    return ev

  def deref(self, a):
    if isinstance(a, Ref):
      return self.regs[a.name]
    if type(a) is list:
      return [self.deref(x) for x in a]
    return a

  def op(self, name, *args, d='', P=None, note=None):
    """Run the real operation `name` on args (Ref or raw), log the event.
    Returns the real result (or None on exception)."""
    P = dict(P or {})
    eargs = [self.reg.encode(a) for a in args]
    ok, res = False, None
    fn = self.ops[name]
    try:
      real = [self.deref(a) for a in args]
    except KeyError:
      return None          # an earlier step already failed and was reported
    CURRENT[0] = self
    self.watch = []
    if self.twice:
      self.rehearsal = True
      arm(OP_TIMEOUT, OP_WALL)
      try:
        spoil(fn(dict(P), *[copied(x) for x in real]))
      except (Exception, SystemExit, OpTimeout):
        pass
      finally:
        arm(GAP_CPU, GAP_WALL)
        self.rehearsal = False
      for a, x in zip(args, real):
        if type(a) is list:
          watched(x)
    arm(OP_TIMEOUT, OP_WALL)
    try:
      res = fn(P, *real)
      ok = True
    except OpTimeout:
      r = {'t': 'exc', 'v': 'Timeout'}
      self.timeouts += 1
    except MemoryError:
      r = {'t': 'exc', 'v': 'MemoryError'}
    except RecursionError:
      r = {'t': 'exc', 'v': 'RecursionError'}
    except Exception as e:
      r = {'t': 'exc', 'v': type(e).__name__}
    except SystemExit:
      r = {'t': 'exc', 'v': 'SystemExit'}
    finally:
      arm(GAP_CPU, GAP_WALL)
    if ok:
      try:
        r = self.reg.encode(res)
      except BaseException as e:
        r = bad('encoding: %r' % e)
      if d and r['t'] != 'bad':
        self.regs[d] = res
      elif d:
        self.regs.pop(d, None)
    elif d:
      self.regs.pop(d, None)
    P = {k: v for k, v in P.items() if not k.startswith('_')}
    ev = {'op': name, 'a': eargs, 'd': d, 'r': r, 'P': P}
    if self.watch:
      ev['watch'] = [[b, self.reg.encode(x)] for b, x in self.watch]
    self.emit(ev)
    if self.timeouts >= 2:
      raise StopSession()
    return res if ok else None

  def observe(self, op, args, r, P=None):
    """Log an event whose arguments and result are already plain values."""
    return self.emit({'op': op, 'a': [self.reg.encode(a) for a in args], 'd': '',
                      'r': self.reg.encode(r), 'P': dict(P or {})})

  def crash(self, exc, where):
    """The code under test raised outside a recorded operation."""
    self.emit({'op': 'crash', 'a': [], 'd': '', 'r': {'t': 'exc', 'v': '%s at %s' % (type(exc).__name__, where)}})

  def drop(self, *names):
    for n in names:
      self.regs.pop(n, None)

  def put(self, name, *args, P=None):
    return self.op(name, *args, P=P)


class StopSession(Exception):
  pass


# ---------------------------------------------------------------------------
# running TLC
def run_tlc(module, cfg_text, workdir, env=None, workers='1', timeout=800, heap='2g', extra=()):
  """Returns (returncode, output).  The specification directory is copied so
  that TLC's scratch files stay in workdir."""
  for f in os.listdir(SPEC):
    if f.endswith('.tla'):
      dst = os.path.join(workdir, f)
      if not os.path.exists(dst):
        shutil.copy(os.path.join(SPEC, f), dst)
  cfg = os.path.join(workdir, module + '.cfg')
  with open(cfg, 'w') as fh:
    fh.write(cfg_text)
  cmd = ['java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
         '-XX:TieredStopAtLevel=4', '-cp', CP, 'tlc2.TLC', '-workers', workers, '-nowarning', '-noGenerateSpecTE',
         '-metadir', os.path.join(workdir, 'meta_' + module), '-config', cfg] + list(extra) + [os.path.join(workdir, module + '.tla')]
  e = dict(os.environ)
  e.update(env or {})
  e.pop('JAVA_TOOL_OPTIONS', None)
  try:
    p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
  except subprocess.TimeoutExpired as t:
    return 124, (t.stdout or b'').decode('utf-8', 'replace')
  return p.returncode, p.stdout.decode('utf-8', 'replace')


def tlc_counts(out):
  m = None
  for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out):
    pass
  return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


TRACE_CFG = 'INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n'


class MachineryError(Exception):
  pass


def check_trace(module, header, events, workdir, timeout=800):
  """Validate events with trace spec `module`. Returns (violations, states)."""
  path = os.path.join(workdir, 'trace.ndjson')
  with open(path, 'w') as fh:
    fh.write(json.dumps(header) + '\n')
    for ev in events:
      fh.write(json.dumps(ev, separators=(',', ':')) + '\n')
  rc, out = run_tlc(module, TRACE_CFG, workdir, env={'TRACE': path}, timeout=timeout)
  done = re.search(r'"DONE\|(\d+)"', out)
  viol = []
  for m in re.finditer(r'"BAD\|(-?\d+)\|(-?\d+)\|([^|"]*)\|([^"]*)"', out):
    viol.append((int(m.group(1)), int(m.group(2)), m.group(3), m.group(4)))
  if (not done or int(done.group(1)) != len(events)) and not viol:   # calls already judged count
    tail = '\n'.join(l for l in out.splitlines() if not re.match(r'(Parsing|Semantic|Linting)', l))[-3500:]
    raise MachineryError('TLC did not judge the whole trace (rc=%s, %s of %d events)\n%s' % (
        rc, done and done.group(1), len(events), tail))
  return viol, tlc_counts(out)


# ---------------------------------------------------------------------------
# quietening the code under test
class Quiet(object):
  def __enter__(self):
    sys.stdout.flush()
    self.saved = os.dup(1)
    self.null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(self.null, 1)
    return self

  def __exit__(self, *a):
    sys.stdout.flush()
    os.dup2(self.saved, 1)
    os.close(self.saved)
    os.close(self.null)


def setup_repo():
  import warnings
  warnings.simplefilter('ignore')
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  sys.setrecursionlimit(3000)


def load_misc():
  """misc/*.py are written as modules of the starks package."""
  import importlib.util
  setup_repo()
  misc = os.path.join(REPO, 'misc')
  if misc not in sys.path:
    sys.path.append(misc)
  import starks
  mods = {}
  for name in ('primality', 'blum_blum_shub', 'commitment', 'zero_knowledge', 'zkp_3_coloring'):
    full = 'starks.' + name
    if full in sys.modules:
      mods[name] = sys.modules[full]
      continue
    spec = importlib.util.spec_from_file_location(full, os.path.join(misc, name + '.py'))
    m = importlib.util.module_from_spec(spec)
    sys.modules[full] = m
    setattr(starks, name, m)
    spec.loader.exec_module(m)
    mods[name] = m
  return mods


# ---------------------------------------------------------------------------
# sharded trace checks
def repo_frame(e):
  """file:function of the innermost frame of the code under test, if the
  exception was raised there (or in something it called)."""
  where = None
  for f in traceback.extract_tb(e.__traceback__):
    fn = os.path.realpath(f.filename)
    if fn.startswith(os.path.realpath(REPO) + os.sep):
      where = '%s:%s' % (os.path.relpath(fn, os.path.realpath(REPO)), f.name)
  return where


def _shard(args):
  (mod, pid, tier, seed, sids, deadline) = args
  t0 = time.time()
  work = tempfile.mkdtemp(prefix='verif_%s_' % pid)
  soft, hard = resource.getrlimit(resource.RLIMIT_AS)
  resource.setrlimit(resource.RLIMIT_AS, (4 << 30, hard))
  res = dict(violations=[], states=0, gen=0, events=0, sessions=0, ops={}, samples=[], error=None, skipped=0)
  try:
    with Quiet():
      setup_repo()
      import importlib
      chk = importlib.import_module('checks.' + mod)
      groups = {}
      stops = 0
      signal.signal(signal.SIGALRM, on_alarm)
      signal.signal(signal.SIGPROF, on_alarm)
      for sid in sids:
        if time.time() > deadline or stops >= 2:
          res['skipped'] += 1
          continue
        rng = rng_for(pid, tier, seed, sid)
        random.seed(rng.getrandbits(64))
        out = []
        sess = chk.make(pid, tier, sid, rng, out)
        arm(GAP_CPU, GAP_WALL)
        try:
          chk.run(sess, pid, tier, sid, rng)
        except StopSession:
          stops += 1
        except (Exception, SystemExit, OpTimeout) as e:
          where = repo_frame(e)
          if where is None:
            raise
          sess.crash(e, where)
          stops += type(e) is OpTimeout
        finally:
          arm(0, 0)
        g = groups.setdefault(sess.MODULE, ({}, []))
        for rid, ring in sess.reg.rings.items():
          if g[0].setdefault(rid, ring) != ring:
            raise MachineryError('ring id %s used twice' % rid)
        g[1].append((sid, out))
    resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    for gi, (module, (rings, items)) in enumerate(sorted(groups.items())):
      header = {'rings': rings or {'_': {'k': 'zp', 'p': 2}}}
      events = [e for _, o in items for e in o]
      wd = os.path.join(work, 'g%d' % gi)
      os.makedirs(wd)
      viol, (gen, dist) = check_trace(module, header, events, wd, timeout=max(60, deadline - time.time() + 240))
      res['states'] += dist
      res['gen'] += gen
      res['events'] += len(events)
      res['sessions'] += len(items)
      for e in events:
        res['ops'][e['op']] = res['ops'].get(e['op'], 0) + 1
      byid = {(e['s'], e['i']): k for k, e in enumerate(events)}
      for (s, i, op, clause) in viol[:200]:
        k = byid.get((s, i))
        ev = events[k]
        first = next(j for j, e in enumerate(events) if e['s'] == s)
        res['violations'].append(dict(session=s, index=i, op=op, clause=clause, event=ev,
                                      module=module, header=header, prefix=events[first:k + 1][-25:]))
      if len(res['samples']) < 2 and events:
        res['samples'].append(events[min(len(events) - 1, 5)])
    return res
  except MachineryError as e:
    res['error'] = str(e)
    return res
  except BaseException:
    res['error'] = traceback.format_exc()
    return res
  finally:
    if os.environ.get('VERIF_KEEP'):
      sys.stderr.write('kept %s\n' % work)
    else:
      shutil.rmtree(work, ignore_errors=True)


def run_sharded(mod, pid, tier, seed, sids, budget):
  deadline = time.time() + budget
  shards = [[] for _ in range(NPROC)]
  for k, s in enumerate(sids):
    shards[k % NPROC].append(s)
  jobs = [(mod, pid, tier, seed, sh, deadline) for sh in shards if sh]
  if not jobs:
    return []
  with multiprocessing.get_context('fork').Pool(len(jobs)) as pool:
    return pool.map(_shard, jobs, chunksize=1)
