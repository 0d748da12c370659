"""Model checking of the specification itself (independent of /repo).

A part names a module, its constants and the expected outcome.  A
specification that does not behave as expected is a failure of the machinery,
not of the code under test."""
import json, os, re, shutil, tempfile, time
import core


def one(module, cfg, expect, timeout=300, workers='8', simulate=None):
  d = tempfile.mkdtemp(prefix='verif_design_')
  try:
    trace = os.path.join(d, 'trace.ndjson')
    with open(trace, 'w') as fh:
      fh.write(json.dumps({'rings': {'_': {'k': 'zp', 'p': 2}}}) + '\n')
    rc, out = core.run_tlc(module, cfg, d, env={'TRACE': trace}, workers=workers, timeout=timeout, heap='6g', extra=simulate or [])
    gen, dist = core.tlc_counts(out)
    m = re.search(r'(?:Invariant|Action property|Temporal property|property) (\w+) (?:is|was) violated', out)
    got = m.group(1) if m else ('ok' if re.search(r'No error has been found|Finished in', out) and rc == 0 else 'error')
    ok = got == expect
    return ok, got, gen, dist, out
  finally:
    shutil.rmtree(d, ignore_errors=True)


def run(part, tier, seed):
  res = dict(error=None, violations=[], states=0, transitions=0, coverage=[])
  runs = []
  for name, module, cfgs, expect in part['models']:
    cfg = cfgs[tier]
    if cfg is None:
      continue
    t0 = time.time()
    ok, got, gen, dist, out = one(module, cfg, expect, timeout=600 if tier == 'thorough' else 240)
    res['states'] += dist
    res['transitions'] += gen
    runs.append(dict(model=name, module=module, expected=expect, got=got, states=dist, generated=gen, wall_s=round(time.time() - t0, 1)))
    if not ok:
      tail = '\n'.join(l for l in out.splitlines() if not re.match(r'(Parsing|Semantic|Linting)', l))[-3000:]
      res['error'] = 'design model %s (%s): expected %s, got %s\n%s' % (name, module, expect, got, tail)
      break
  res['coverage'] = dict(models=runs)
  return res


if __name__ == '__main__':
  import sys
  import registry
  todo = registry.MODELS if len(sys.argv) < 3 else {k: registry.MODELS[k] for k in sys.argv[2:]}
  for k, (module, cfgs, expect) in todo.items():
    t0 = time.time()
    tier = sys.argv[1]
    if cfgs[tier] is None:
      continue
    ok, got, gen, dist, out = one(module, cfgs[tier], expect, timeout=1200)
    print(k, 'OK' if ok else 'WRONG: ' + got, dist, 'states', round(time.time() - t0, 1), 's', flush=True)
    if not ok:
      print('\n'.join(l for l in out.splitlines() if not re.match(r'(Parsing|Semantic|Linting)', l))[-1500:])
