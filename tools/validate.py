#!/usr/bin/env python3-vt
import json,jsonschema,os,sys,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(V+'/properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,s); ids.append(o['id'])
m=json.load(open(V+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
c=[x['property'] for x in m['checks']]+[x['property'] for x in m['not_applicable']]
assert sorted(c)==sorted(ids),(set(ids)^set(c))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(V+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print("ok",len(ids))
