import json,jsonschema,glob
S=lambda n: json.load(open('/root/.vp/%s.schema.json'%n))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),S('PROPERTIES'))
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),S('MANIFEST'))
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),S('EVIDENCE'))
print('valid')
