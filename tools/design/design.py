import json,re
man=json.load(open('/verif/MANIFEST.json')); props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
fi=json.load(open('/verif/findings.json'))
head=open('/verif/tools/design/head.md').read(); per=open('/verif/tools/design/per.md').read(); tail=open('/verif/tools/design/tail.md').read()
out=[head]
secs=dict(re.findall(r'^### (C\d\d)\n(.*?)(?=^### |\Z)',per,re.S|re.M))
out.append('## 4. Property by property\n')
for i in sorted(props):
    out.append('### %s %s\n\n%s\n'%(i,props[i]['title'],secs.get(i,'').strip()))
    c=[c for c in man['checks'] if c['property_id' if 'property_id' in c else 'property']==i]
    fx=[f for f in fi['fixed'] if f['property']==i]
    if fx: out.append('Defects found and repaired: '+'; '.join('%s (%s)'%(f['what'],f['commit']) for f in fx)+'.\n')
out.append(tail)
open('/verif/DESIGN.md','w').write('\n'.join(out))
