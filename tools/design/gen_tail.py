"""writes the tables of tail.md (sections 5 and 6) from seeded/*/meta.json and findings.json"""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out = ['', '## 5. Seeded bugs', '', open(os.path.join(H, 'tools/design/seeds.md')).read().strip(), '', '| seed | caught by | manifests only with | effect |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(H, 'seeded/*/meta.json'))):
    m = json.load(open(f)); out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
d = json.load(open(os.path.join(H, 'findings.json')))
out += ['', '## 6. Genuine defects found', '', 'All were repaired by small `fix:` commits in /repo (`findings.json`, `fixed`); none is left as a known finding (`known` has %d entries).' % len(d['known']), 'Each was reported by the check first and replayed on the built code; the check reports it again if it returns.', '']
out += ['* %s `%s`: %s' % (x['property'], x['commit'], x['what']) for x in d['fixed']]
out += ['', open(os.path.join(H, 'tools/design/end.md')).read().strip(), '']
open(os.path.join(H, 'tools/design/tail.md'), 'w').write('\n'.join(out))
