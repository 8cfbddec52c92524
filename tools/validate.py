import json,jsonschema,sys
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'));ms=json.load(open('/root/.vp/MANIFEST.schema.json'))
rows=[json.loads(l) for l in open('/verif/properties.jsonl')]
try:
    for r in rows: jsonschema.validate(r,ps)
except Exception as e:
    try: jsonschema.validate(rows,ps)
    except Exception as e2: print(e.message, e2.message)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),ms)
print('ok',len(rows))
