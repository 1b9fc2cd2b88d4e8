#!/bin/bash
# Validates MANIFEST.json, properties.jsonl and the evidence files against their schemas.
python3-vt -c "
import json,jsonschema,glob
L=lambda f: json.load(open(f))
jsonschema.validate(L('/verif/MANIFEST.json'),L('/root/.vp/MANIFEST.schema.json'))
sch=L('/root/.vp/PROPERTIES.schema.json')
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),sch)
ev=L('/root/.vp/EVIDENCE.schema.json')
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(L(f),ev)
print('valid')"
