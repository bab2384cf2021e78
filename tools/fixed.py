import json, sys
p='/verif/findings.json'; d=json.load(open(p)); d['fixed'].append(dict(property=sys.argv[1], commit=sys.argv[2], what=sys.argv[3])); json.dump(d, open(p,'w'), indent=1)
