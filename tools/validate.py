"""Validate the generated files and the evidence against the schemas (python3-vt)."""
import glob
import json
import jsonschema
ROOT = '/root/.vp/'
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open(ROOT + 'MANIFEST.schema.json')))
schema = json.load(open(ROOT + 'PROPERTIES.schema.json'))
for line in open('/verif/properties.jsonl'):
    prop = json.loads(line)
    jsonschema.validate(prop, schema)
    if prop['statement'].replace('...', '').count('. ') > 2:
        print(prop['id'], 'more than three sentences')
schema = json.load(open(ROOT + 'EVIDENCE.schema.json'))
for name in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(name)), schema)
print('valid')
