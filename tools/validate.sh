#!/bin/bash
# Validates MANIFEST, properties and evidence against the schemas (by hand, no check uses it).
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json,jsonschema,glob
L=lambda f: json.load(open(f))
V='/root/.vp/'
jsonschema.validate(L('MANIFEST.json'),L(V+'MANIFEST.schema.json'))
s=L(V+'PROPERTIES.schema.json')
ids=[]
for l in open('properties.jsonl'): x=json.loads(l); jsonschema.validate(x,s); ids.append(x['id'])
e=L(V+'EVIDENCE.schema.json')
for f in sorted(glob.glob('evidence/*.json')): jsonschema.validate(L(f),e)
print(ids, 'ok')
P
