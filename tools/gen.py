"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
sys.path.insert(0, V)
import props
from vg import check
check.load_rules()
rows, checks, na = [], [], []
for p in sorted(props.T, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['title']
    rows.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'].split(), text=p['quant']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=p['mech'])))
    if p['na']:
        na.append(dict(property=p['id'], reason=p['na']))
    elif p['id'] not in check.RULES:
        na.append(dict(property=p['id'], reason='no check has been built for it yet'))
    else:
        checks.append(dict(property=p['id'], quick_cmd='python3 -m vg.check ' + p['id'],
                           thorough_cmd='python3 -m vg.check %s -t' % p['id'],
                           technique='static analysis: ' + p['tech'], level='other', level_note=p['note']))
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(r) + '\n' for r in rows))
m = dict(version=1, setup_cmd='python3 -m compileall -q vg', checks=checks, not_applicable=na,
         notes='Stdlib-only static analyser in vg/; every check re-reads /repo/src on each run and never imports or runs it.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(rows), 'properties', len(checks), 'checks', len(na), 'not applicable')
