import json,sys
p='/verif/known_findings.json';f=json.load(open(p))
for s in sys.argv[1:]: 
    if s not in f['fixed']: f['fixed'].append(s)
json.dump(f,open(p,'w'),indent=1)
