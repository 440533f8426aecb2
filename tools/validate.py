import json,sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
bad=0
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    for e in jsonschema.Draft202012Validator(s).iter_errors(d): print(d['id'],e.message[:200], e.json_path); bad=1
print('ok' if not bad else 'bad')
