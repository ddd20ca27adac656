#!/usr/bin/env python3-vt
"""Validates properties.jsonl and MANIFEST.json against their schemas."""
import json
import jsonschema
s = jsonschema.Draft202012Validator(json.load(open('/root/.vp/PROPERTIES.schema.json')))
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    for e in s.iter_errors(p):
        print(p['id'], list(e.path), e.message[-200:])
m = jsonschema.Draft202012Validator(json.load(open('/root/.vp/MANIFEST.schema.json')))
for e in m.iter_errors(json.load(open('/verif/MANIFEST.json'))):
    print('MANIFEST', list(e.path), e.message[-200:])
