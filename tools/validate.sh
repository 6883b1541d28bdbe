#!/bin/bash
# schema validation of the interface files
cd "$(dirname "$0")/.."
python3-vt - <<'P'
import json, jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("properties.jsonl"):
    if l.strip(): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print("valid")
P
