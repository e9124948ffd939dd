#!/usr/bin/env python3-vt
import json,jsonschema,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V+'/properties.jsonl'):
    o=json.loads(l);jsonschema.validate(o,s)
jsonschema.validate(json.load(open(V+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(os.listdir(V+'/evidence')):
    jsonschema.validate(json.load(open(V+'/evidence/'+f)),e)
print("ok", json.load(open(V+'/MANIFEST.json'))['hooks'])
