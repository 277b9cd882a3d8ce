"""Regenerates MANIFEST.json from the table of claimed checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import meta
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in meta.EXPLAIN:
        checks.append({'property': p, 'quick_cmd': './run.sh %s quick' % p, 'thorough_cmd': './run.sh %s thorough' % p,
                       'technique': meta.TECHNIQUE.get(p, meta.DEFAULT_TECHNIQUE), 'level': meta.LEVEL.get(p, 'other'),
                       'level_note': meta.NOTE.get(p, meta.DEFAULT_NOTE)})
    else:
        na.append({'property': p, 'reason': meta.NA.get(p, 'The check for this property is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'test -x /opt/venv/bin/python', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
