import json,jsonschema,sys
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    try: jsonschema.validate(json.loads(l),s)
    except Exception as e: print(l[:20], str(e)[:300])
try:
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
except Exception as e: print(str(e)[:500])
