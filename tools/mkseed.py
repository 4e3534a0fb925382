"""Create and validate a planted bug.

usage: mkseed.py SPEC.py [--no-check]
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Python
source; must exit nonzero via assertion when the property is broken).
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
i = spec["ID"]
work = f"/tmp/seedrepo.{i}"
shutil.rmtree(work, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", work], check=True)
out = os.path.join(V, "seeded", i)
os.makedirs(out, exist_ok=True)
try:
    for f, old, new in spec["EDITS"]:
        p = os.path.join(work, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", work, "diff"], capture_output=True, text=True, check=True).stdout
    open(os.path.join(out, "patch.diff"), "w").write(d)
    # blame: deleted lines must be original
    fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--reverse"], capture_output=True, text=True).stdout.split()
    for f in {e[0] for e in spec["EDITS"]}:
        cur = None
        dl = subprocess.run(["git", "-C", work, "diff", "-U0", "--", f], capture_output=True, text=True).stdout
        for l in dl.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if n:
                    b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L", f"{st},+{n}", "--", f], capture_output=True, text=True).stdout
                    for bl in b.splitlines():
                        if not bl.startswith("^"):
                            print("NOT ORIGINAL:", bl)
    open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"])
    if spec.get("ROS"):
        shutil.rmtree(os.path.join(out, "rosstub"), ignore_errors=True)
        shutil.copytree(os.path.join(V, "mc", "rosstub"), os.path.join(out, "rosstub"),
                        ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\n# run with cwd at the repository root\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                'export PYTHONPATH="$PWD:$here:$here/rosstub" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    r0 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=300)
    r1 = subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=work, capture_output=True, text=True, timeout=300)
    print(f"demo: unchanged {r0.returncode}, patched {r1.returncode}")
    if r0.returncode != 0:
        print(r0.stdout[-1500:], r0.stderr[-1500:])
    if r1.returncode == 0 or "AssertionError" not in r1.stderr:
        print(r1.stdout[-1500:], r1.stderr[-1500:])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"],
                       cwd=work, capture_output=True, text=True, env=env)
    print("tests:", t.stdout.strip().splitlines()[-1])
    if "--no-check" not in sys.argv:
        env = dict(os.environ, RBM_REPO=work)
        c = subprocess.run([os.path.join(V, "check.sh"), spec["PROPERTY"]], capture_output=True, text=True, env=env)
        tail = [l for l in c.stdout.splitlines()][-45:]
        print("check exit", c.returncode)
        print("\n".join(l[:160] for l in tail if l.startswith(("VIOL", "ERR", "scenario", spec["PROPERTY"]))))
finally:
    shutil.rmtree(work, ignore_errors=True)
