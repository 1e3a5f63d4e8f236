import json,sys,jsonschema,os
b=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(b+"/properties.jsonl"): jsonschema.validate(json.loads(l),s)
if os.path.exists(b+"/MANIFEST.json"):
    jsonschema.validate(json.load(open(b+"/MANIFEST.json")),json.load(open("/root/.vp/MANIFEST.schema.json")))
for e in os.listdir(b+"/evidence"):
    if e.endswith(".json"): jsonschema.validate(json.load(open(b+"/evidence/"+e)),json.load(open("/root/.vp/EVIDENCE.schema.json")))
print("valid")
