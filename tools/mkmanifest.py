#!/usr/bin/env python3
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
from props import PROPS,NOTES
NA={
'N01':'Pure functions of their input vectors: no schedule, clock, I/O, fault or shared state for a simulation to decide. (Their results are exercised indirectly by the graph building of P05.)',
'N03':'Pure functions of their arguments: nothing a scheduler or fault injector could vary.',
'N04':'A sequential computation whose validity depends on the input graph alone; its behaviour under memory exhaustion and failing callbacks is part of P14.',
'N05':'Pure functions of a tag map: nothing a scheduler or fault injector could vary.',
}
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in PROPS:
        checks.append({'property':i,'quick_cmd':'python3 check.py %s --tier quick'%i,'thorough_cmd':'python3 check.py %s --tier thorough'%i,'evidence_file':'evidence/%s.json'%i,
          'technique':PROPS[i].get('technique','deterministic simulation: seeded schedules and injected faults, checked against a reference model'),'level':'exploration','level_note':NOTES[i]})
    else: na.append({'property':i,'reason':NA.get(i,'check not built yet')})
commits=os.environ.get('HOOK_COMMITS','').split()
old=json.load(open(V+'/MANIFEST.json')) if os.path.exists(V+'/MANIFEST.json') else {}
hooks={'guard':'ROUTINGKIT_SIM','enable':'check.py compiles /repo/src with -DROUTINGKIT_SIM (build products in /verif/build)','source_commits':commits or old.get('hooks',{}).get('source_commits',[])}
m={'version':1,'setup_cmd':'python3 check.py --setup','hooks':hooks,'checks':checks,'not_applicable':na,
 'notes':'All checks are one deterministic simulator (sim/) with scenarios (scen/). A violation prints the seed and writes a minimised replay file under replays/; python3 check.py --replay FILE reproduces it. KNOWN_FINDINGS.txt lists findings.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'na')
