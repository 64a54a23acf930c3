#!/usr/bin/env python3-vt
import json, jsonschema, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
n = 0
for l in open('properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, s); n += 1
    for f in d['anchors']['files']:
        if not os.path.exists('/repo/' + f): print("missing anchor", d['id'], f)
print(n, "properties valid")
