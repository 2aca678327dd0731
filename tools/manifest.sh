#!/bin/bash
# Rewrite properties.jsonl and MANIFEST.json
cd "$(dirname "$0")/.." || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python tools/mkprops.py && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python tools/mkmanifest.py && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python tools/mkdesign.py
python3-vt -c "
import json,jsonschema;jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)"
