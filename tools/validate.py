#!/usr/bin/env python3-vt
import json, glob, jsonschema
S='/root/.vp/'
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open(S+'MANIFEST.schema.json')))
ps=json.load(open(S+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): 
    x=json.loads(l)
    try: jsonschema.validate(x, ps)
    except jsonschema.ValidationError as e: jsonschema.validate([x], ps)
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)), json.load(open(S+'EVIDENCE.schema.json')))
print('ok')
