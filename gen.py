#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in props.PROPS]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [dict(property=i, quick_cmd="./check %s" % i, thorough_cmd="./check %s --thorough" % i,
                    technique=props.CHECKS[i]["technique"], level="model_checking", level_note=props.CHECKS[i]["note"])
               for i in ids if i in props.CHECKS],
    "not_applicable": [dict(property=a, reason=b) for a, b in props.NOT_APPLICABLE],
}
done = {c["property"] for c in m["checks"]} | {n["property"] for n in m["not_applicable"]}
for i in ids:
    if i not in done:
        m["not_applicable"].append(dict(property=i, reason="no check has been built yet"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for p in props.PROPS: jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError:
    pass
