#!/bin/sh
# validates properties.jsonl and MANIFEST.json against their schemas
cd "$(dirname "$0")/.." && python3-vt -c "
import json,jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),sc)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print('valid')"
