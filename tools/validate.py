import json, jsonschema, sys, glob
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("/verif/properties.jsonl"): jsonschema.validate(json.loads(l), ps)
try:
    m=json.load(open("/verif/MANIFEST.json")); jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    ids={json.loads(l)["id"] for l in open("/verif/properties.jsonl")}
    c={x["property"] for x in m["checks"]}; n={x["property"] for x in m.get("not_applicable",[])}
    print("missing", ids-c-n, "extra", (c|n)-ids, "both", c&n)
except FileNotFoundError: pass
for e in glob.glob("/verif/evidence/*.json"): jsonschema.validate(json.load(open(e)), json.load(open("/root/.vp/EVIDENCE.schema.json")))
print("ok")
