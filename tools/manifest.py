#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contracts: a property is claimed when a contract lists it under props."""
import json,re,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed={}
for f in sorted(glob.glob('/verif/contracts/*.sx')):
    for m in re.finditer(r'\(contract "([^"]+)"(.*?)(?=\n\(contract|\Z)',open(f).read(),re.S):
        for p in re.findall(r'\(props ([^)]*)\)',m.group(2)):
            for q in p.split(): claimed.setdefault(q,[]).append(m.group(1))
notes=json.load(open('/verif/tools/notes.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in claimed and i not in notes.get('withheld',{}):
        checks.append({'property':i,'quick_cmd':'bash ./check.sh '+i,'thorough_cmd':'VERIF_TIER=thorough bash ./check.sh '+i,
          'technique':'contract-based deductive verification of the Go source (contracts on '+', '.join(claimed[i])+'), obligations discharged by z3/cvc5; failing inputs searched by running the executable contract',
          'level':'proof','level_note':notes.get(i,'')+' '+notes['common']})
    else: na.append({'property':i,'reason':notes.get('withheld',{}).get(i) or notes['na'].get(i,'contracts not finished yet')})
json.dump({'version':1,'setup_cmd':'bash ./check.sh setup','checks':checks,'not_applicable':na,'notes':notes['about']},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed:',' '.join(c['property'] for c in checks))
