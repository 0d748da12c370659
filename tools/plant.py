"""Writes planted bugs into /verif/seeded and tries them out.

  plant.py make ID ...     write seeded/ID from tools/plants.py, confirm it
  plant.py check ID ...    run the property's check against the planted bug
  plant.py all             both, for every definition

Everything happens in a scratch copy of /repo under /tmp."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plants import PLANTS
BASE = 'f644286'
PY = '/opt/venv/bin/python'
DEMO = '#!/bin/bash\n# run with cwd = the repository\nexec %s "$(dirname "$0")/demo.py"\n' % PY
HEAD = '''import contextlib, io, os, random, sys
REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.path.append(os.path.join(REPO, 'misc'))
sys.dont_write_bytecode = True
'''


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str), **kw)


def copy():
  d = tempfile.mkdtemp(prefix='plant_')
  c = os.path.join(d, 'repo')
  sh(['git', 'clone', '-q', '/repo', c], d)
  return d, c


def make(i, p):
  d, c = copy()
  try:
    for f, old, new in p['edits']:
      s = open(os.path.join(c, f)).read()
      assert s.count(old) == 1, '%s: %d matches in %s for %r' % (i, s.count(old), f, old)
      open(os.path.join(c, f), 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff', '-U3'], c).stdout.decode()
    # only lines of the original repository may be changed
    touched = 0
    for f in sorted(set(e[0] for e in p['edits'])):
      old = [l.split(')', 1)[0] for l in sh(['git', 'blame', '-s', BASE + '..HEAD', '--', f], c).stdout.decode().splitlines()]
      import re
      for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(['git', 'diff', '-U0', '--', f], c).stdout.decode(), re.M):
        a, n = int(m.group(1)), int(m.group(2) or 1)
        touched += n
        for k in range(a, a + n):
          assert old[k - 1].startswith('^'), '%s: line %d of %s is not original' % (i, k, f)
    assert touched, 'only insertions'
    t = os.path.join(V, 'seeded', i)
    os.makedirs(t, exist_ok=True)
    open(os.path.join(t, 'patch.diff'), 'w').write(diff)
    open(os.path.join(t, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(t, 'demo.sh'), 0o755)
    open(os.path.join(t, 'demo.py'), 'w').write(HEAD + p['demo'].strip('\n') + '\n')
    json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['what']), open(os.path.join(t, 'meta.json'), 'w'), indent=1)
    base = sh(['bash', os.path.join(t, 'demo.sh')], '/repo', timeout=300)
    bad = sh(['bash', os.path.join(t, 'demo.sh')], c, timeout=300)
    ok = base.returncode == 0 and bad.returncode != 0
    print(i, 'demo base=%d bad=%d' % (base.returncode, bad.returncode), 'OK' if ok else 'DEMO WRONG\n' + base.stdout.decode()[-600:] + bad.stdout.decode()[-600:])
    return ok
  finally:
    shutil.rmtree(d)


def stable(i):
  """Stable tests with the patch applied in /repo itself (undone afterwards)."""
  sh(['git', '-C', '/repo', 'apply', os.path.join(V, 'seeded', i, 'patch.diff')], '/repo')
  try:
    sh('bash /opt/vp/build.sh', '/repo')
    o = '/tmp/plant_out.json'
    sh('bash /opt/vp/test.sh ' + o, '/repo')
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    got = set(json.load(open(o))['passed'])
    miss = [x for x in b if x not in got]
    print(i, 'stable tests', 'OK' if not miss else 'FAIL %s' % miss[:3])
    return not miss
  finally:
    sh('git -C /repo checkout -- .', '/repo')
    sh('bash /opt/vp/build.sh', '/repo')


def check(i, p, tier='quick'):
  d, c = copy()
  try:
    r = sh(['git', 'apply', os.path.join(V, 'seeded', i, 'patch.diff')], c)
    assert r.returncode == 0, r.stdout
    e = dict(os.environ, VERIF_REPO=c, VERIF_EVID=d, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
    r = sh([PY, 'harness/run.py', p['property'], tier], V, env=e, timeout=1000)
    o = r.stdout.decode()
    hit = 'VIOLATION property=%s ' % p['property'] in o and r.returncode == 1
    print(i, p['property'], 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode, [l for l in o.splitlines() if l.startswith('  session')][:1], '' if hit else o[-500:])
    return hit
  finally:
    shutil.rmtree(d)


if __name__ == '__main__':
  what, ids = sys.argv[1], sys.argv[2:] or sorted(PLANTS)
  for i in ids:
    if what in ('make', 'all') and not make(i, PLANTS[i]):
      continue
    if what in ('make', 'all', 'stable'):
      stable(i)
    if what in ('check', 'all'):
      check(i, PLANTS[i])
