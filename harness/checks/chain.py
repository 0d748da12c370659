"""Sessions for the blockchain (P26, P27): schedules produced by TLC from
Blockchain.tla drive real nodes in threads; the recorded histories are judged
by BlockTrace.tla."""
import hashlib, importlib.util, json, os, re, sys, tempfile, threading, time, shutil
import core
from core import Registry, MachineryError

SCHEDULES = []       # filled by prepare() before the shards are forked


def prepare(pid, tier, seed):
  del SCHEDULES[:]
  if pid != 'P26':
    return dict(states=0, transitions=0)
  need = COUNT[pid][0 if tier == 'quick' else 1]
  d = tempfile.mkdtemp(prefix='verif_sched_')
  try:
    gen = 0
    for j, (kinds, ops) in enumerate([('{"mine", "tx"}', 5), ('{"mine", "tx", "resolve"}', 6), ('{"mine", "resolve"}', 5)]):
      cfg = ('CONSTANTS Nodes = {1, 2}\n Threads = {1, 2, 3}\n MaxOps = %d\n MaxLen = 6\n UseLock = TRUE\n CheckTip = TRUE\n'
             ' TrustLength = FALSE\n Liars = {}\n Kinds = %s\n Emit = TRUE\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
             'INVARIANTS ChainWellFormed TransactionsOnce OneReward NothingBad EmitLog\n' % (ops, kinds))
      num = need
      sd = int(hashlib.sha256(('%s/%s/%d' % (pid, seed, j)).encode()).hexdigest()[:7], 16)
      wd = os.path.join(d, str(j))
      os.makedirs(wd)
      rc, out = core.run_tlc('Blockchain', cfg, wd, extra=['-simulate', 'num=%d' % num, '-depth', '90', '-seed', str(sd)], timeout=200)
      scheds = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'"SCHED\|(.*)"$', out, re.M)]
      if not scheds or 'violated' in out:
        raise MachineryError('no schedules from Blockchain.tla\n' + out[-2000:])
      SCHEDULES.append(scheds)
      gen += sum(len(s) for s in scheds)
    return dict(states=gen, transitions=gen)
  finally:
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------
class Op(object):
  """One request, executed in a thread that stops at scheduling points."""

  def __init__(self, world, node, kind, fn):
    self.w, self.node, self.kind, self.fn = world, node, kind, fn
    self.go = threading.Event()
    self.state = 'new'
    self.rec = dict(k=kind, b=0, e=0, status=0, idx=0, tx={'s': '', 'r': '', 'a': ''}, txs=[], proof='', prev='', vid=0,
                    fetch=[], rep=False, chain=[], peers=[], total=[])
    self.steps = 0
    self.free = False
    self.thread = threading.Thread(target=self.main, daemon=True)

  def main(self):
    self.w.local.op = self
    self.go.wait()
    self.go.clear()
    try:
      self.fn(self.rec)
    except BaseException as e:
      self.rec['status'] = 500
      self.rec['err'] = repr(e)[:100]
    self.state = 'done'

  def pause(self):
    if self.free:
      return
    self.state = 'paused'
    self.go.wait()
    self.go.clear()
    self.state = 'running'

  def step(self, quick=True):
    """Let the thread run to its next scheduling point (or until it blocks)."""
    if self.state == 'done':
      return
    if self.state == 'new':
      self.rec['b'] = self.w.tick()
      self.state = 'running'
      self.thread.start()
      self.go.set()
    elif self.state == 'paused':
      self.state = 'running'
      self.go.set()
    last, same = None, 0
    end = time.time() + (60 if not quick else 20)
    while self.state == 'running' and time.time() < end:
      time.sleep(0.004)
      f = sys._current_frames().get(self.thread.ident)
      cur = (id(f), getattr(f, 'f_lasti', 0))
      same = same + 1 if cur == last else 0
      last = cur
      if quick and same >= 10:
        break                      # waiting for a lock
    if self.state == 'done' and not self.rec['e']:
      self.rec['e'] = self.w.tick()


class World(object):
  def __init__(self, n):
    core.setup_repo()
    misc = os.path.join(core.REPO, 'misc')
    if misc not in sys.path:
      sys.path.append(misc)
    import blockchain, requests
    self.bc = blockchain
    self.local = threading.local()
    self.clock = 0
    self.fakes = {}          # netloc -> function() -> requests.Response or raises
    self.nodes = []
    self.names = ['node%d.local:5%03d' % (i + 1, i + 1) for i in range(n)]
    self.hook(blockchain, requests)
    for i in range(n):
      spec = importlib.util.spec_from_file_location('verif_node%d' % i, os.path.join(misc, 'run_blockchain.py'))
      m = importlib.util.module_from_spec(spec)
      spec.loader.exec_module(m)
      m.app.testing = False
      import logging
      m.app.logger.disabled = True
      logging.getLogger(m.app.name).disabled = True
      self.nodes.append(m)
    self.byjson, self.table, self.chains = {}, [], []

  def tick(self):
    self.clock += 1
    return self.clock

  def hook(self, bc, requests):
    w = self
    C = bc.Blockchain
    if not hasattr(C, '_verif'):
      C._verif = True
      C._world = w

      def at(name, before):
        f = C.__dict__.get(name)
        if f is None or isinstance(f, (staticmethod, classmethod, property)):
          return

        def wrapped(self, *a, **k):
          op = getattr(C._world.local, 'op', None)
          if op is not None and before:
            op.pause()
          r = f(self, *a, **k)
          if op is not None and not before:
            op.pause()
          return r
        setattr(C, name, wrapped)
      at('proof_of_work', False)
      at('new_transaction', True)
      at('new_block', True)
    C._world = w

    def request(session, method, url, *a, **k):
      w_ = C._world
      op = getattr(w_.local, 'op', None)
      m = re.match(r'http://([^/]*)/chain$', url)
      if op is not None:
        op.pause()
      entry = dict(peer=m.group(1) if m else url, ok=False, chain=[])
      if op is not None:
        op.rec['fetch'].append(entry)
      if not m or method.upper() != 'GET':
        raise requests.exceptions.ConnectionError('no such url')
      resp = w_.serve(m.group(1))
      if resp.status_code == 200:
        entry['ok'] = True
        entry['chain'] = w_.ids(resp.json()['chain'])
      return resp
    requests.sessions.Session.request = request

  def serve(self, netloc):
    import requests
    if netloc in self.names:
      n = self.names.index(netloc)
      status, data = self.http(n, 'GET', '/chain')
      r = requests.Response()
      r.status_code, r._content = status, json.dumps(data).encode()
      return r
    return self.fakes[netloc]()

  def http(self, n, method, path, body=None):
    c = self.nodes[n].app.test_client()
    r = c.open(path, method=method, json=body) if body is not None else c.open(path, method=method)
    return r.status_code, r.get_json(silent=True)

  # -- blocks ---------------------------------------------------------------
  def ids(self, chain):
    out = []
    for b in chain:
      j = json.dumps(b, sort_keys=True)
      if j not in self.byjson:
        self.table.append(json.loads(j))
        self.byjson[j] = len(self.table)
      out.append(self.byjson[j])
    self.chains.append(out)
    return out

  @staticmethod
  def block_hash(b):
    return hashlib.sha256(json.dumps(b, sort_keys=True).encode()).hexdigest()

  @staticmethod
  def txrec(t):
    if not isinstance(t, dict) or set(t) != {'sender', 'recipient', 'amount'}:
      return {'s': '?', 'r': json.dumps(t), 'a': ''}
    return {'s': json.dumps(t['sender']), 'r': json.dumps(t['recipient']), 'a': json.dumps(t['amount'])}

  def blockrec(self, b):
    txs = b.get('transactions')
    return dict(idx=b['index'] if type(b.get('index')) is int else -1, prev=str(b.get('previous_hash')), hash=self.block_hash(b),
                txs=[self.txrec(t) for t in txs] if type(txs) is list else [{'s': '?', 'r': '?', 'a': '?'}])

  def powpairs(self):
    pairs = set()
    for c in self.chains:
      for a, b in zip(c, c[1:]):
        pairs.add((a, b))
    out = []
    for a, b in sorted(pairs):
      g = ('%s%s%s' % (self.table[a - 1].get('proof'), self.table[b - 1].get('proof'), self.block_hash(self.table[a - 1]))).encode()
      if hashlib.sha256(g).hexdigest().startswith('0000'):
        out.append([a, b])
    return out


class ChainSession(object):
  MODULE = 'BlockTrace'

  def __init__(self, sid, rng, out):
    self.sid, self.rng, self.out, self.reg = sid, rng, out, Registry()
    self.events = []
    self.open = {}
    self.w = None

  def crash(self, e, where):
    self.flush()
    self.out.append(dict(s=self.sid, i=len(self.out), op='crash', why='%s at %s' % (type(e).__name__, where)))

  def start(self, n):
    self.w = World(n)
    self.open = {i: [] for i in range(n)}
    self.first = [self.w.ids(self.chain(i)[0]) for i in range(n)]
    self.events.append(dict(op='genesis'))

  def chain(self, n):
    status, data = self.w.http(n, 'GET', '/chain')
    return data['chain'], status == 200 and data['length'] == len(data['chain'])

  # -- requests -------------------------------------------------------------
  def request(self, n, kind, arg=None):
    w = self.w

    def mine(rec):
      rec['status'], d = w.http(n, 'GET', '/mine')
      if rec['status'] == 200:
        rec['idx'], rec['prev'], rec['proof'] = d['index'], str(d['previous_hash']), str(d['proof'])
        rec['txs'] = [w.txrec(t) for t in d['transactions']]

    def tx(rec):
      rec['tx'] = w.txrec(arg)
      rec['status'], d = w.http(n, 'POST', '/transactions/new', arg)
      if rec['status'] == 201:
        m = re.search(r'(-?\d+)\s*$', d['message'])
        rec['idx'] = int(m.group(1)) if m else -1

    def badtx(rec):
      rec['status'], d = w.http(n, 'POST', '/transactions/new', arg)

    def resolve(rec):
      rec['status'], d = w.http(n, 'GET', '/nodes/resolve')
      if rec['status'] == 200:
        rec['rep'] = 'new_chain' in d
        rec['chain'] = w.ids(d['new_chain'] if rec['rep'] else d['chain'])

    def reg(rec):
      rec['peers'] = [p for _, p in arg]
      rec['status'], d = w.http(n, 'POST', '/nodes/register', {'nodes': [u for u, _ in arg]})
      if rec['status'] == 201:
        rec['total'] = sorted(d['total_nodes'])

    def badreg(rec):
      rec['status'], d = w.http(n, 'POST', '/nodes/register', arg)
    op = Op(w, n, kind, dict(mine=mine, tx=tx, badtx=badtx, resolve=resolve, reg=reg, badreg=badreg)[kind])
    self.open[n].append(op)
    return op

  def close(self, n):
    """If nothing is in flight on node n, record the window."""
    ops = self.open[n]
    started = [o for o in ops if o.state != 'new']
    for o in started:
      if o.state == 'done' and not o.rec['e']:
        o.rec['e'] = self.w.tick()
    if not started or any(o.state != 'done' for o in started):
      return
    self.open[n] = [o for o in ops if o.state == 'new']
    chain, lenok = self.chain(n)
    post = self.w.ids(chain)
    for o in started:
      if o.kind == 'mine' and o.rec['status'] == 200:
        for b, i in zip(chain, post):
          if b.get('index') == o.rec['idx'] and str(b.get('previous_hash')) == o.rec['prev'] and str(b.get('proof')) == o.rec['proof'] \
             and [self.w.txrec(t) for t in b.get('transactions', [])] == o.rec['txs']:
            o.rec['vid'] = i
    self.events.append(dict(op='window', n=n + 1, ops=[o.rec for o in started], post=post, lenok=bool(lenok)))

  def alone(self, n, kind, arg=None):
    """A request with no other on the node in flight."""
    o = self.request(n, kind, arg)
    o.free = True
    o.step(quick=False)
    self.close(n)
    if o.state != 'done':
      self.events.append(dict(op='request never finishes'))
      raise core.StopSession()
    return o.rec

  def drain(self, ops):
    end = time.time() + 60
    while any(o.state != 'done' for o in ops) and time.time() < end:
      for o in ops:
        if o.state != 'done':
          o.step()
    if any(o.state != 'done' for o in ops):
      self.events.append(dict(op='request never finishes'))
      for o in ops:
        o.free = True
        o.go.set()
      raise core.StopSession()

  def flush(self):
    if self.w is None:
      return
    evs = [dict(op='init', blocks=[self.w.blockrec(b) for b in self.w.table], pow=self.w.powpairs(), chains=self.first)] + self.events
    for k, e in enumerate(evs):
      e.update(s=self.sid, i=k)
    self.out.extend(evs)
    self.w = None


TXN = [0]


def some_tx(rng, prev):
  if prev and rng.random() < .15:
    return dict(rng.choice(prev))           # the same payment twice
  t = {'sender': rng.choice(['alice', 'bob', 'carol', 'ünï', '', '1']), 'recipient': rng.choice(['dave', 'erin', 'x' * 40]),
       'amount': rng.choice([0, 1, 5, -3, 2.5, '7', 10**12, rng.randrange(1000)])}
  prev.append(t)
  return t


def P26(s, rng, sid, tier):
  scheds = SCHEDULES[sid % len(SCHEDULES)]
  sched = scheds[(sid // len(SCHEDULES)) % len(scheds)]
  s.start(2)
  prev = []
  for n in (0, 1):
    s.alone(n, 'reg', [('http://' + s.w.names[1 - n], s.w.names[1 - n])])
    if rng.random() < .5:
      s.alone(n, 'tx', some_tx(rng, prev))
    if rng.random() < .3:
      s.alone(n, 'badtx', rng.choice([{'sender': 'a', 'recipient': 'b'}, {'amount': 1}, {'sender': 'a', 'amount': 2}]))
    if rng.random() < .2:
      s.alone(n, 'badreg', {'peers': []})
  cur = {}
  allops = []
  for st in sched:
    t, n, what = st['t'], st['n'] - 1, st['w']
    if what in ('mine', 'tx', 'resolve'):
      if t in cur and cur[t].state != 'done':
        s.drain([cur[t]] + [o for o in allops if o.state not in ('done', 'new')])
        s.close(0)
        s.close(1)
      cur[t] = s.request(n, what, some_tx(rng, prev) if what == 'tx' else None)
      allops.append(cur[t])
      continue
    if t in cur:
      cur[t].step()
      s.close(cur[t].node)
  s.drain(allops)
  for n in (0, 1):
    s.close(n)
  for n in (0, 1):
    s.alone(n, 'mine')
  s.alone(rng.choice([0, 1]), 'resolve')
  s.alone(rng.choice([0, 1]), 'mine')
  s.flush()


# ---------------------------------------------------------------------------
# P27
def pow_block(rng, chain, txs=None, index=None):
  """An honest block on top of chain, built without the code under test."""
  last = chain[-1]
  h = World.block_hash(last)
  p = 0
  pre = str(last['proof'])
  while not hashlib.sha256(('%s%d%s' % (pre, p, h)).encode()).hexdigest().startswith('0000'):
    p += 1
  return {'index': len(chain) + 1 if index is None else index, 'timestamp': 1500000000.5 + len(chain), 'transactions': txs or [], 'proof': p, 'previous_hash': h}


def fake_chain(rng, n, cheap=True):
  c = [{'index': 1, 'timestamp': 1.0 + rng.randrange(100), 'transactions': [], 'previous_hash': '1', 'proof': rng.randrange(1000)}]
  while len(c) < n:
    c.append(pow_block(rng, c, [{'sender': '0', 'recipient': 'f', 'amount': 1}]))
  return c


def corrupt(rng, c):
  """A chain that is not valid (for len >= 2), or None."""
  c = json.loads(json.dumps(c))
  if len(c) < 2:
    return None
  k = rng.choice(['prev', 'proof', 'tx', 'ts', 'drop', 'swap', 'proof0', 'lastproof', 'lastprev', 'genesis', 'dup', 'noproof', 'index', 'index'])
  i = rng.randrange(1, len(c))
  if k == 'index':          # everything right but one block's index
    i = rng.randrange(len(c))
    out = []
    for j, b in enumerate(c):
      x = rng.choice([0, 1, 2, len(c) + 1, len(c) + 7, i, i + 2]) if i == j else j + 1
      if i == j and x == j + 1:
        x += 1
      if j == 0:
        out.append(dict(b, index=x))
      else:
        out.append(pow_block(rng, out, b['transactions'], x))
    return out
  if k == 'prev':
    c[i]['previous_hash'] = rng.choice(['0' * 64, '1', c[i]['previous_hash'][:-1] + ('0' if c[i]['previous_hash'][-1] != '0' else '1')])
  elif k == 'lastprev':
    c[-1]['previous_hash'] = World.block_hash(c[-1])
  elif k == 'proof':
    c[i]['proof'] += 1
  elif k == 'lastproof':
    c[-1]['proof'] += rng.choice([1, -1, 10**6])
  elif k == 'proof0':
    c[i]['proof'] = 0
  elif k == 'noproof':      # a link without work: hashes right, proof wrong
    c = c[:-1]
    c.append({'index': len(c) + 1, 'timestamp': 5.0, 'transactions': [], 'proof': 1, 'previous_hash': World.block_hash(c[-1])})
  elif k == 'tx':
    c[i - 1]['transactions'] = c[i - 1]['transactions'] + [{'sender': 'a', 'recipient': 'thief', 'amount': 100}]
  elif k == 'ts':
    c[i - 1]['timestamp'] += 1
  elif k == 'drop' and len(c) > 2:
    del c[rng.randrange(1, len(c) - 1)]
  elif k == 'swap' and len(c) > 2:
    j = rng.randrange(1, len(c) - 1)
    c[j], c[j + 1] = c[j + 1], c[j]
  elif k == 'dup':
    c.append(json.loads(json.dumps(c[-1])))
  else:
    c[0]['proof'] += 1
  return c


def P27(s, rng, sid, tier):
  import requests
  n = rng.choice([2, 3, 3])
  s.start(n)
  for i in range(n):
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
      s.alone(i, 'mine')
    others = [j for j in range(n) if j != i]
    urls = [(rng.choice(['http://', 'https://']) + s.w.names[j] + rng.choice(['', '/']), s.w.names[j]) for j in others]
    s.alone(i, 'reg', urls)
  base = fake_chain(rng, rng.choice([2, 3, 4]))
  fakes = []

  def resp(chain, status=200, length=None):
    def f():
      r = requests.Response()
      r.status_code = status
      r._content = json.dumps({'chain': chain, 'length': len(chain) if length is None else length}).encode()
      return r
    return f

  def dead(exc):
    def f():
      raise exc('unreachable')
    return f
  for k in range(rng.choice([1, 2, 3])):
    name = 'peer%d:80' % k
    kind = rng.choice(['corrupt', 'corrupt', 'corrupt', 'lie', 'down', 'timeout', 'status', 'honest', 'genesis', 'empty', 'short'])
    lens = max(len(s.chain(i)[0]) for i in range(n))
    c = list(base)
    if kind in ('corrupt', 'status') and rng.random() < .7:
      while len(c) < lens + 1:
        c.append(pow_block(rng, c))
    if kind == 'corrupt':
      s.w.fakes[name] = resp(corrupt(rng, c), length=rng.choice([None, 99]))
    elif kind == 'lie':
      s.w.fakes[name] = resp(c[:rng.randint(1, len(c))], length=rng.choice([99, 5, 0]))
    elif kind == 'down':
      s.w.fakes[name] = dead(requests.exceptions.ConnectionError)
    elif kind == 'timeout':
      s.w.fakes[name] = dead(requests.exceptions.Timeout)
    elif kind == 'status':
      s.w.fakes[name] = resp(c, status=rng.choice([404, 500, 503, 204]))
    elif kind == 'honest':
      s.w.fakes[name] = resp(c, length=rng.choice([None, None, 1]))
    elif kind == 'short':
      s.w.fakes[name] = resp(c[:2])
    elif kind == 'empty':
      s.w.fakes[name] = resp([])
    else:
      s.w.fakes[name] = resp(c[:1])
    fakes.append(name)
  for i in range(n):
    fs = [(rng.choice(['http://%s', 'http://%s/x']) % f, f) for f in fakes if rng.random() < .8]
    if fs:
      s.alone(i, 'reg', fs)
  for _ in range(rng.randint(2, 4)):
    i = rng.randrange(n)
    c = rng.random()
    if c < .6:
      s.alone(i, 'resolve')
    elif c < .8:
      s.alone(i, 'mine')
    else:
      s.alone(i, 'tx', some_tx(rng, []))
  # validity test, directly
  import blockchain
  for k in range(6):
    c = base if k == 0 else (corrupt(rng, base) or base)
    if rng.random() < .3:
      c = c[:1]
    try:
      r = s.w.nodes[0].blockchain.valid_chain(json.loads(json.dumps(c)))
    except Exception:
      r = None
    s.events.append(dict(op='valid', chain=s.w.ids(c), res=r if type(r) is bool else 'exception'))
  # everybody knows everybody: two rounds of resolution settle on one length
  for i in range(n):
    s.alone(i, 'reg', [('http://' + f, f) for f in fakes] + [('http://' + s.w.names[j], s.w.names[j]) for j in range(n) if j != i])
  order = list(range(n))
  rng.shuffle(order)
  for i in order:
    s.alone(i, 'resolve')
  s.events.append(dict(op='converge'))
  s.alone(rng.randrange(n), 'mine')
  s.flush()


COUNT = {'P26': (72, 500), 'P27': (64, 500)}
GEN = {'P26': P26, 'P27': P27}


def sessions(pid, tier):
  return list(range(COUNT[pid][0 if tier == 'quick' else 1]))


def make(pid, tier, sid, rng, out):
  return ChainSession(sid, rng, out)


def run(s, pid, tier, sid, rng):
  try:
    GEN[pid](s, rng, sid, tier)
  except core.StopSession:
    s.flush()
    raise
