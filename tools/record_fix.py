"""Record fix commits of /repo not yet in known_findings.json: record_fix.py SUBSTR=ID ..."""
import json, subprocess, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
m = dict(a.rsplit("=", 1) for a in sys.argv[1:])
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "214bee4..HEAD"], text=True)
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or any(f" {h} " in x for x in d["fixed"]):
        continue
    ids = [v for k, v in m.items() if k in s]
    if len(ids) != 1:
        print("unmatched", l); continue
    d["fixed"].append(f"fixed: property={ids[0]} {h} {s[5:]}")
json.dump(d, open(f, "w"), indent=1); open(f, "a").write("\n")
