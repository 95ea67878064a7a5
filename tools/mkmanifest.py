import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from checks import CHECKS
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m=dict(version=1,setup_cmd='python3 tools/setup.py',checks=[],not_applicable=[])
NA={}
for p in props:
    if p in CHECKS:
        c=CHECKS[p]
        m['checks'].append(dict(property=p,quick_cmd='python3 run.py '+p,thorough_cmd='VERIF_TIER=thorough python3 run.py '+p,technique=c['technique'],level='exploration',level_note=c['note']))
    else: m['not_applicable'].append(dict(property=p,reason=NA.get(p,'check under construction')))
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
