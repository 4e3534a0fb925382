import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}",
            thorough_cmd=f"./check.sh {i} --tier thorough",
            technique=n.get("technique", "bounded exhaustive exploration of the real code (deviation-bounded stateless search) against an independent reference model"),
            level="model_checking",
            level_note=n.get("note", "Every choice sequence within the stated alphabets and deviation bound is executed on the real code and compared with an independent reference model; nothing is claimed outside the alphabets. Trusts numpy, mc/ref.py and the quaternion package's squad.")))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get("na", "no check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: all checks use the public API (ROS, IPython and ipywidgets are replaced by stand-ins in mc/rosstub)."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
