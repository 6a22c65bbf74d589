import json, jsonschema, re
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s)
    n=len(re.findall(r"[.;!?](?=\s|$)", re.sub(r"[;]","",d["statement"])))
    if n>3: print(d["id"], n)
