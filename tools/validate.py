#!/opt/veriftools/pyvenv/bin/python
import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    o=json.loads(l)
    try: jsonschema.validate(o,s)
    except Exception as e: print(o['id'],str(e)[:300])
    if o['statement'].count('. ')+1>3: print(o['id'],'too many sentences')
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    try: jsonschema.validate(json.load(open(f)),es)
    except Exception as e: print(f,str(e)[:300])
print("validated")
