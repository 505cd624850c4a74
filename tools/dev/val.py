import json,jsonschema
S="/root/.vp/"
jsonschema.validate(json.load(open("/verif/MANIFEST.json")),json.load(open(S+"MANIFEST.schema.json")))
ps=[json.loads(l) for l in open("/verif/properties.jsonl")]
sch=json.load(open(S+"PROPERTIES.schema.json"))
for p in ps: jsonschema.validate(p,sch)
m=json.load(open("/verif/MANIFEST.json"))
print(len(ps), len(m.get("checks",m.get("properties",[]))), len(m["not_applicable"]), max(len(p["title"]) for p in ps))
