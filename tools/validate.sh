#!/bin/bash
# validates properties.jsonl, MANIFEST.json and evidence against the schemas
exec python3-vt - <<'P'
import json,jsonschema,glob,os
S='/root/.vp/'
s=json.load(open(S+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
if os.path.exists('/verif/MANIFEST.json'):
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open(S+'MANIFEST.schema.json')))
e=json.load(open(S+'EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print("schemas ok")
P
