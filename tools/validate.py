"""Validates properties.jsonl and MANIFEST.json (python3-vt)."""
import json, jsonschema
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print("valid")
