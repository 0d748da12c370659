"""Writes MANIFEST.json from properties.jsonl and harness/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if i not in registry.PARTS:
    na.append(dict(property=i, reason='the specification of this part and its check are still being written'))
    continue
  checks.append(dict(property=i,
                     quick_cmd='/opt/venv/bin/python harness/run.py %s quick' % i,
                     thorough_cmd='/opt/venv/bin/python harness/run.py %s thorough' % i,
                     evidence_file='evidence/%s.json' % i,
                     technique=registry.TECHNIQUE[i],
                     level='model_checking',
                     level_note=registry.NOTE[i]))
m = dict(version=1, setup_cmd='/opt/venv/bin/python harness/setup.py', checks=checks, not_applicable=na,
         notes='TLA+ checked with TLC. No hooks in /repo are needed: everything is observed through public calls. VERIF_SEED selects the generated inputs and schedules.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
  json.dump(m, fh, indent=1)
  fh.write('\n')
try:
  import jsonschema
  jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
  pass
print(len(checks), 'checks,', len(na), 'not claimed')
