"""The installation check: every combination of missing or broken ROS packages."""
import contextlib
import importlib
import io
import itertools
import runpy
import sys
import traceback
import warnings

from mc.explore import Scenario
from mc.util import fresh

ASSUMPTIONS = [
    "ROS packages are the stand-ins of this framework; a missing package is one whose import "
    "raises ModuleNotFoundError, a broken one raises ImportError or, where it locates its "
    "resources through rospkg, rospkg.ResourceNotFound",
    "the check is executed like python -m rigid_body_motion.ros.check_install, in a forked "
    "process instead of a new interpreter",
    "success is reported by a line stating that everything is correctly installed, without a "
    "traceback",
]
MODULES = ["geometry_msgs", "rospy", "std_msgs", "visualization_msgs", "rospkg",
           "tf2_geometry_msgs", "tf2_ros", "tf"]
LIBBOOST = "libboost_thread.so.1.74.0: cannot open shared object file"
NOISE = "stand-in package is broken: "


class Finder:
    """Makes packages missing or broken."""

    def __init__(self, faults):
        self.faults = faults

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        kind = self.faults.get(top)
        if kind == "missing":
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        if kind == "broken":
            raise ImportError(f"{NOISE}{top}: {LIBBOOST}")
        if kind == "resource":
            import rospkg

            raise rospkg.ResourceNotFound(f"{NOISE}{top}")
        return None


def run(faults):
    """Output and exception of the check; modules are restored afterwards."""
    import rigid_body_motion.ros  # noqa

    saved = dict(sys.modules)
    f = Finder(faults)
    out, err, exc = io.StringIO(), io.StringIO(), None
    for k in list(sys.modules):
        if k.split(".")[0] in MODULES or k.endswith(".check_install"):
            del sys.modules[k]
    sys.meta_path.insert(0, f)
    importlib.invalidate_caches()
    argv = sys.argv
    sys.argv = ["check_install"]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("rigid_body_motion.ros.check_install", run_name="__main__")
    except SystemExit as e:
        # reporting a failure by the exit status as well is fine
        exc = repr(e) if e.code and not faults else None
    except BaseException:  # noqa
        exc = traceback.format_exc()
    finally:
        sys.argv = argv
        sys.meta_path.remove(f)
        sys.modules.clear()
        sys.modules.update(saved)
    return out.getvalue() + err.getvalue(), exc


def judge(ch, faults):
    fresh()
    text, exc = run(faults)
    ch.step()
    ch.state(tuple(sorted(faults.items())))
    ch.check(exc is None, "the check itself fails", lambda: f"{faults}: {exc}")
    good = "correctly installed" in text and "not correctly" not in text
    if not faults:
        ch.check(good and "Traceback" not in text and "Error" not in text,
                 "complete installation not recognised", lambda: text)
    else:
        ch.check(not good, "incomplete installation reported as correct",
                 lambda: f"{faults}: {text}")
        # the report names what is wrong
        named = [m for m in faults
                 if f"No module named '{m}" in text or f"{NOISE}{m}" in text
                 or faults[m] == "resource" and "tf2_ros failed" in text]
        ch.check(named, "report does not tell what is missing", lambda: f"{faults}: {text}")
    ch.outcome(good, tuple(sorted(faults)) if len(faults) < 2 else len(faults))


def subsets(ch):
    """Every subset of the packages is missing."""
    judge(ch, {m: "missing" for m in MODULES if ch.flag(f"{m} missing", free=True)})


KINDS = {m: ["ok", "missing", "broken"] + ["resource"] * (m in ("tf2_geometry_msgs", "tf2_ros", "tf"))
         for m in MODULES}


def kinds(n):
    def broken(ch):
        """Up to n packages with every kind of fault."""
        which = ch.choose("packages", [c for k in range(n + 1)
                                       for c in itertools.combinations(MODULES, k)], free=True)
        faults = {m: ch.choose(f"fault of {m}", KINDS[m][1:], free=True) for m in which}
        # its resources cannot be looked up without rospkg
        ch.assume(not ("resource" in faults.values() and "rospkg" in faults))
        judge(ch, faults)

    return broken


def repeated(ch):
    """A fault is removed: the next check sees the present state."""
    for k in range(3):
        m = ch.choose(f"missing {k}", [None] + MODULES, free=True)
        judge(ch, {m: "missing"} if m else {})


def scenarios(tier):
    return [Scenario("subsets", subsets, None),
            Scenario("faults", kinds(2 if tier == "quick" else 4), None),
            Scenario("repeated", repeated, None)]
