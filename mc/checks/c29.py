"""Missing optional packages only disable what needs them."""
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from mc.explore import Scenario
from mc.util import scratch

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUMPTIONS = [
    "a missing package is one whose import raises ModuleNotFoundError, in a fresh interpreter",
    "required packages (numpy, scipy, anytree, numpy-quaternion) are present; xarray needs pandas",
    "ROS and Jupyter packages are the recording stand-ins of this framework",
    "without netCDF4 another storage backend may be used or the export may raise",
]
REF = {}


def run(missing):
    repo = os.environ.get("RBM_REPO", "/repo")
    folder = tempfile.mkdtemp(dir=scratch())
    out = os.path.join(folder, "result")
    p = subprocess.run(
        [sys.executable, "-W", "ignore", os.path.join(HERE, "optdriver.py"), repo,
         os.path.join(HERE, "rosstub"), out] + sorted(missing),
        capture_output=True, text=True, timeout=300, cwd=folder)
    try:
        with open(out, "rb") as f:
            return pickle.load(f), p
    except OSError:
        return None, p
    finally:
        import shutil

        shutil.rmtree(folder, ignore_errors=True)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape
                and np.allclose(a, b, 1e-9, 1e-9, equal_nan=True))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return (isinstance(a, (int, float)) and isinstance(b, (int, float))
                and np.allclose(a, b, 1e-9, 1e-9, equal_nan=True))
    return a == b


def make(together):
    def subset(ch):
        """One subset of the optional packages is missing."""
        missing = set()
        missing |= ch.choose("data packages missing", {
            "none": set(), "xarray": {"xarray"}, "pandas, xarray": {"pandas", "xarray"}},
            free=True)
        for m in ("numba", "matplotlib", "netCDF4", "ros"):
            if ch.flag(f"{m} missing", free=True):
                missing.add(m)
        if together:
            if ch.flag("pooch, notebook missing", free=True):
                missing |= {"pooch", "notebook"}
        else:
            for m in ("pooch", "notebook"):
                if ch.flag(f"{m} missing", free=True):
                    missing.add(m)
        ch.state(tuple(sorted(missing)))
        got, p = run(missing)
        ch.check(got is not None, "library ended the interpreter",
                 lambda: f"{p.returncode} {p.stdout[-500:]} {p.stderr[-1500:]}")
        ch.check(got["import"] is None, "library cannot be imported", lambda: f"{got['import']}")
        ref = REF["ops"]
        ch.check(set(got["ops"]) == set(ref), "operations", lambda: f"{sorted(got['ops'])}")
        for name, (needs, r, unchanged, files) in got["ops"].items():
            ch.step()
            want = ref[name]
            ch.check(unchanged, "registry or frames changed", name)
            lacking = set(needs) & missing
            if not lacking or lacking == {"netCDF4"} and r[0] == "ok":
                ch.check(r[0] == "ok", "disabled without need", lambda: f"{name}: {r}")
                ch.check(same(r[1], want[1][1]), "result depends on unneeded packages",
                         lambda: f"{name}: {r[1]}\nexpected {want[1][1]}")
            elif lacking == {"netCDF4"}:
                ch.check(r[0] == "raise", "not reported", lambda: f"{name}: {r}")
                ch.check("out.nc" not in files, "file left behind", name)
            else:
                ch.check(r[0] == "raise" and r[1], "missing package not reported",
                         lambda: f"{name}: {r}")
                ch.check("out.nc" not in files, "file left behind", name)
        ch.outcome(tuple(sorted(k for k, v in got["ops"].items() if v[1][0] == "ok")))

    return subset


def complete(ch):
    """With all packages everything works."""
    ch.check(REF.get("import", 1) is None, "library cannot be imported", lambda: f"{REF}")
    for name, (needs, r, unchanged, files) in REF["ops"].items():
        ch.step()
        ch.check(r[0] == "ok", "operation failed with all packages", lambda: f"{name}: {r}")
        ch.check(unchanged, "registry or frames changed", name)
    ch.outcome(len(REF["ops"]))


def scenarios(tier):
    got, p = run(())
    REF.clear()
    REF.update(got or {"import": (p.returncode, p.stderr[-1500:]), "ops": {}})
    return [Scenario("complete", complete), Scenario("subsets", make(tier == "quick"), None)]
