"""Entry point of every check:  run.py <property> <quick|thorough>

Exit 0: the property held on everything explored (known findings are printed
and do not fail the check).  Exit 1: a VIOLATION line was printed.  Exit 2:
the machinery itself failed."""
import argparse, hashlib, importlib, json, os, shutil, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import registry


def load_known():
  with open(os.path.join(core.VERIF, 'known_findings.json')) as fh:
    return json.load(fh)['findings']


def resolve(a, regs):
  if a.get('t') == 'ref':
    return regs.get(a['v'])
  if a.get('t') == 'l':
    return {'t': 'l', 'v': [resolve(x, regs) for x in a['v']]}
  return a


def match_known(known, pid, v):
  """A violation is a known finding only if the very call (operation,
  argument values, parameters and result) and the clause are listed."""
  ev = v.get('event')
  if not ev or 'a' not in ev:
    return None
  args = [resolve(a, ev['regs']) for a in ev['a']]
  for k in known:
    if k['status'] == 'known' and k['property'] == pid and k['op'] == v['op'] and k['clause'] == v['clause'] \
       and k['args'] == args and k['result'] == ev['r'] and all(ev['P'].get(x) == y for x, y in k['params'].items()):
      return k
  return None


def clip(x):
  t = json.dumps(x)
  return x if len(t) <= 4000 else {'op': x.get('op'), 's': x.get('s'), 'i': x.get('i'), 'clipped': t[:3000]}


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--session', type=int)
  a = ap.parse_args()
  pid, tier = a.pid, a.tier
  seed = os.environ.get('VERIF_SEED', '1')
  t0 = time.time()
  os.makedirs(os.path.join(core.EVID, 'replay'), exist_ok=True)
  budget = registry.BUDGET[tier]
  parts = registry.PARTS[pid]
  viol, errors, cov = [], [], []
  tot = dict(states=0, transitions=0, traces=0)
  samples, assumptions, notes = [], list(registry.ASSUMPTIONS.get(pid, [])), []
  for part in parts:
    if time.time() - t0 > budget and part.get('optional'):
      notes.append('skipped for time: ' + part['name'])
      continue
    if part['kind'] == 'trace':
      mod = importlib.import_module('checks.' + part['module'])
      if hasattr(mod, 'prepare'):
        g = mod.prepare(pid, tier, seed)
        tot['states'] += g['states']
        tot['transitions'] += g['transitions']
      sids = mod.sessions(pid, tier) if a.session is None else [a.session]
      rs = core.run_sharded(part['module'], pid, tier, seed, sids, budget * part.get('share', 1))
      ops, sess, ev, skipped = {}, 0, 0, 0
      for r in rs:
        if r['error']:
          errors.append(r['error'])
        viol += [dict(v, part=part['name']) for v in r['violations']]
        tot['states'] += r['states']
        tot['transitions'] += max(0, r['gen'] - 1)
        tot['traces'] += r['sessions']
        sess += r['sessions']
        ev += r['events']
        skipped += r['skipped']
        for k, n in r['ops'].items():
          ops[k] = ops.get(k, 0) + n
        samples += [clip(x) for x in r['samples'][:1]]
      cov.append(dict(part=part['name'], sessions=sess, calls_judged=ev, skipped_for_time=skipped, calls_per_operation=dict(sorted(ops.items()))))
      if sess == 0 and not errors:
        errors.append('no session was judged')
    elif part['kind'] == 'design':
      r = importlib.import_module('designs').run(part, tier, seed)
      if r['error']:
        errors.append(r['error'])
      viol += r.get('violations', [])
      tot['states'] += r['states']
      tot['transitions'] += r['transitions']
      cov.append(dict(part=part['name'], **r['coverage']))
  known = load_known()
  fresh, seen = [], {}
  for v in viol:
    k = match_known(known, pid, v)
    if k is None:
      fresh.append(v)
    else:
      seen[k['id']] = k
  for k in seen.values():
    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
  replays = []
  for v in fresh[:5]:
    name = '%s_%s_%s.json' % (pid, v.get('session', 'x'), v.get('index', 0))
    path = os.path.join(core.EVID, 'replay', name)
    with open(path, 'w') as fh:
      json.dump(dict(property=pid, tier=tier, seed=seed, rerun='VERIF_SEED=%s /opt/venv/bin/python harness/run.py %s %s --session %s' % (
          seed, pid, tier, v.get('session')), violation=v), fh, indent=1)
    replays.append(path)
    print('VIOLATION property=%s replay=%s' % (pid, path))
  for v in fresh[:8]:
    print('  session %s call %s: %s: %s' % (v.get('session'), v.get('index'), v['op'], v['clause']))
  if errors:
    sys.stderr.write('\n'.join(errors) + '\n')
  ev = dict(property=pid, tier=tier, seed=int(seed) if seed.isdigit() else 0, level='model_checking',
            coverage=dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'],
                          samples=samples[:6], parts=cov, notes=notes, machinery_errors=len(errors)),
            assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(fresh))
  if a.session is None:
    with open(os.path.join(core.EVID, pid + '.json'), 'w') as fh:
      json.dump(ev, fh, indent=1)
  if fresh:
    return 1
  if errors:
    return 2
  print('OK property=%s tier=%s states=%d traces=%d wall=%.1fs' % (pid, tier, tot['states'], tot['traces'], time.time() - t0))
  return 0


if __name__ == '__main__':
  sys.exit(main())
