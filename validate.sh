#!/bin/bash
# validates the committed JSON files against the schemas
cd "$(dirname "$0")" && python3 meta.py && python3-vt - <<'P'
import json,jsonschema,glob
s=json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(json.load(open('MANIFEST.json')),s)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
s=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),s)
print('ok')
P
