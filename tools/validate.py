"""python3-vt tools/validate.py: committed metadata and evidence against the schemas"""
import glob
import json
import jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
    assert json.loads(l)['statement'].count('. ') <= 2, json.loads(l)['id']
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/C*.json'):
    jsonschema.validate(json.load(open(f)), es)
print('valid')
