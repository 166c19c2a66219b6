import json, jsonschema, glob
S="/root/.vp/"
ps=json.load(open(S+"PROPERTIES.schema.json"))
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l), ps)
jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open(S+"MANIFEST.schema.json")))
es=json.load(open(S+"EVIDENCE.schema.json"))
for f in glob.glob("evidence/*.json"): jsonschema.validate(json.load(open(f)), es)
print("valid", len(glob.glob("evidence/*.json")))
