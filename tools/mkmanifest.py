#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NOTES = json.load(open(H + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']; n = NOTES.get(i)
    if n and os.path.exists('%s/rac/%s.py' % (H, i)):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique=n.get('technique', 'contract-based deductive verification: contracts on the real Python source, verification conditions generated on every run and discharged by normal form, z3 and cvc5; counterexamples replayed on the built code; bounded run-time assertion checking where stated'),
                           level=n['level'], level_note=n['note']))
    else: na.append(dict(property=i, reason=(n or {}).get('na', 'check not built yet')))
m = dict(version=1, setup_cmd='python3-vt tools/setup_check.py', checks=checks, not_applicable=na,
         notes='See DESIGN.md. check.py copies /repo to a scratch directory, builds it there, and removes it afterwards.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json'))); print('manifest ok', len(checks), len(na))
except ImportError: print('not validated')
