"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.prop_table import TABLE, NA
from absint import props

TECH = ('abstract interpretation of the source over finite sign/position cells with '
        'relational value numbering')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for p in TABLE + NA:
    q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant',
                           'anchors')}
    assert len(q['title']) <= 80, q['title']
    f.write(json.dumps(q) + '\n')
checks = []
for p in TABLE:
  assert p['id'] in props.PROPS, p['id']
  checks.append({
      'property': p['id'],
      'quick_cmd': f'python3-vt check.py --property {p["id"]} --tier quick',
      'thorough_cmd': f'python3-vt check.py --property {p["id"]} --tier thorough',
      'technique': 'static analysis: ' + p.get('technique', TECH),
      'level': 'other',
      'level_note': p['note'],
  })
m = {'version': 1, 'setup_cmd': 'python3-vt tools/selfcheck.py', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'All checks parse /repo/autobound on every run and import or execute '
              'nothing of it.  See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
print(len(TABLE), 'claimed', len(NA), 'not applicable')
