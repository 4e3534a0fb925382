"""Rosbag cache under crashes, write errors and concurrent use."""
import atexit
import functools
import itertools
import json
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import time
from pathlib import Path

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.run import REPO, VERIF
from mc.util import fresh, scratch

ASSUMPTIONS = [
    "a crash ends the process between two system calls that modify files or in the middle of "
    "a write; completed calls survive in order (no loss of power)",
    "stand-in for the rosbag package (no ROS installation in this environment)",
    "exported data: resolution 1e-4",
]
CRASH, TORN, ERROR_ONCE, ERROR_FROM, PAUSE = 2, 3, 4, 5, 6
TOL = 0.51e-4
_driver = None
_server = None


def start_server():
    """One process with the fault shim, from which all actions are forked."""
    global _server
    d = tempfile.mkdtemp(dir=scratch())
    so = os.path.join(d, "fsfault.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so,
                    os.path.join(VERIF, "mc", "native", "fsfault.c"), "-ldl"], check=True)
    sock = os.path.join(d, "s")
    path = os.pathsep.join([REPO, os.path.join(VERIF, "mc", "rosstub"), VERIF])
    p = subprocess.Popen(
        [sys.executable, os.path.join(VERIF, "mc", "fsdriver.py"), path, sock],
        stdin=subprocess.PIPE, env=dict(os.environ, LD_PRELOAD=so))
    _server = sock, p

    def end(pid=os.getpid()):
        if os.getpid() == pid:
            p.kill()
            p.wait()

    atexit.register(end)


class Driver:
    def __init__(self):
        self.pid = os.getpid()
        sock, p = _server
        for _ in range(600):
            c = socket.socket(socket.AF_UNIX)
            try:
                c.connect(sock)
                break
            except OSError:
                c.close()
                time.sleep(0.1)
        self.f = c.makefile("rw")
        self.c = c

    def ask(self, **req):
        self.f.write(json.dumps(req) + "\n")
        self.f.flush()
        line = self.f.readline()
        if not line:
            raise RuntimeError("file-system driver ended")
        return json.loads(line)


def driver():
    global _driver
    if _driver is None or _driver.pid != os.getpid():
        _driver = Driver()
    return _driver


def run(folder, actions, mode=0, n=0, **kw):
    return driver().ask(actions=actions, mode=mode, n=n, dir=str(folder), **kw)


class Bag:
    """A scratch folder with one bag and the expected contents of its topics."""

    def __init__(self, ch, topics, n=40, name="rec.bag", folder=None, off=0):
        import _ros
        import rosbag

        fresh()
        _ros.reset()
        if folder is None:
            folder = Path(tempfile.mkdtemp(dir=scratch()))
            ch.defer(lambda: shutil.rmtree(str(folder), ignore_errors=True))
        self.folder = folder
        self.path = folder / name
        self.want = {}
        with rosbag.Bag(self.path, "w") as bag:
            for k, topic in enumerate(topics):
                k += off
                m = n + k
                t = 100.0 * k + np.arange(3.0 * m).reshape(m, 3) / 8 + 0.125
                q = np.array([ref.axang((1, k, -2), 0.05 * i + 0.3 * k) for i in range(m)])
                s = 1.6e9 + 10 * k + 0.25 * np.arange(m)
                odo = k % 2 == 1
                w = {"time": s, "position": t, "orientation": q}
                if odo:
                    w["linear_velocity"] = -t
                    w["angular_velocity"] = t[::-1] + 1
                for i in range(m):
                    o = _ros.Odometry() if odo else _ros.TransformStamped()
                    o.header.stamp = _ros.Time.from_sec(s[i])
                    p = o.pose.pose if odo else o.transform
                    v, r = _ros.Vector3(*t[i]), _ros.Quaternion(*q[i][1:], q[i][0])
                    if odo:
                        p.position, p.orientation = _ros.Point(*t[i]), r
                        o.twist.twist.linear = _ros.Vector3(*-t[i])
                        o.twist.twist.angular = _ros.Vector3(*w["angular_velocity"][i])
                    else:
                        p.translation, p.rotation = v, r
                    bag.write(topic, o)
                self.want[topic] = w
        self.bytes = self.path.read_bytes()

    def differs(self, topic, res):
        """Why a result is not the complete data of the topic (None if it is)."""
        if "raised" in res:
            return res["raised"]
        got, want = res["ok"], self.want[topic]
        if set(got) != set(want):
            return f"contains {sorted(got)}, expected {sorted(want)}"
        for k, v in want.items():
            g = np.array(got[k], float)
            if k == "time":
                g = g / 1e9
            if g.shape != v.shape:
                return f"{k} has shape {g.shape}, expected {v.shape}"
            bad = ~(np.abs(g - v) <= (1e-6 if k == "time" else TOL))
            if bad.any():
                return f"{k}: {bad.sum()} of {bad.size} values differ"
        return None

    def cached(self, topic):
        return {"do": "cached", "bag": str(self.path), "topic": topic}

    def export(self, topic, out=None):
        return {"do": "export", "bag": str(self.path), "topic": topic, "out": out}

    def nc(self, path):
        return {"do": "nc", "path": str(path)}

    def files(self):
        return {str(p.relative_to(self.folder)): p.read_bytes()
                for p in self.folder.rglob("*") if p.is_file()}


TOPICS = ["/tracker/pose", "/camera/odom"]
_counts = {}


def later_loads(ch, bag, what):
    """Cached loads after the interruption: complete or an error, twice."""
    for topic in (TOPICS[1], TOPICS[0], TOPICS[1]):
        res = run(bag.folder, [bag.cached(topic)])["results"]
        ch.step()
        ch.check(len(res) == 1, "later cached load ends the process", what)
        why = bag.differs(topic, res[0])
        ch.check(why is None or "raised" in res[0], "incomplete data from the cache",
                 lambda: f"{what}; then cached load of {topic}: {why}")
        ch.outcome(topic, "raised" in res[0])
    ch.check(bag.path.read_bytes() == bag.bytes, "bag modified", what)


def setup_initial(ch, bag, initial, action, target):
    if initial == "other topic cached":
        r = run(bag.folder, [bag.cached(TOPICS[0])])["results"]
        ch.check(bag.differs(TOPICS[0], r[0]) is None, "cached load",
                 lambda: bag.differs(TOPICS[0], r[0]))
    elif initial == "older target":
        r = run(bag.folder, [bag.export(TOPICS[0], str(target))])["results"]
        ch.check("ok" in r[0], "export", lambda: f"{r}")
    elif initial == "cached":
        r = run(bag.folder, [bag.cached(TOPICS[1])])["results"]
        ch.check(bag.differs(TOPICS[1], r[0]) is None, "cached load", lambda: f"{r}"[:500])


def make_interrupted(configs, modes):
    def interrupted(ch):
        """Every crash point and write error of one export or cached load."""
        initial, action = ch.choose("initial state and action", configs, free=True)
        bag = Bag(ch, TOPICS)
        default = bag.path.with_suffix(".nc")
        target = bag.folder / "out" / "x.nc" if action == "export to path" else default
        setup_initial(ch, bag, initial, action, target)
        old = target.read_bytes() if target.exists() else None
        if action == "cached load":
            act = bag.cached(TOPICS[1])
        else:
            act = bag.export(TOPICS[1], str(target) if action == "export to path" else None)
        key = (initial, action)
        if key not in _counts:
            keep = {p: p.read_bytes() for p in bag.folder.rglob("*") if p.is_file()}
            r = run(bag.folder, [act], 1, 0)
            _counts[key] = r["count"]
            ch.check("ok" in r["results"][0], f"{action} without faults", lambda: f"{r}"[:500])
            ch.note(f"{key}: {' '.join(r['journal'])}")
            # back to the initial state
            shutil.rmtree(str(bag.folder))
            for p, b in keep.items():
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(b)
            if initial == "cached":
                ch.check(r["count"] == 0, "cached load with a complete cache modifies files",
                         lambda: f"{r['journal']}")
            else:
                ch.check(r["count"] > 3, "fault injection sees no file operations", f"{r}"[:300])
        n = ch.choose("at operation", range(_counts[key] or 1), free=True)
        mode = ch.choose("fault", modes, free=True)
        ch.state(key, n, mode)
        what = f"{initial}; {action}; fault {mode} at {n} of {_counts[key]}"
        again = [bag.cached(TOPICS[1])]
        r = run(bag.folder, [act] + (again if mode in (ERROR_ONCE, ERROR_FROM) else []), mode, n)
        ch.step()
        if mode in (CRASH, TORN):
            ch.check(r["exit"] == 77 or _counts[key] == 0, "harness: no crash", lambda: f"{r}"[:300])
        elif str(r["exit"]).startswith("signal"):
            # the netCDF library may not survive an error on closing: a crash
            pass
        else:
            ch.check(r["exit"] == 0, "error ends the process", lambda: f"{what}: {r}"[:500])
            first, second = r["results"]
            if action == "cached load":
                why = bag.differs(TOPICS[1], first)
                ch.check(why is None or "raised" in first, "incomplete data despite an error",
                         lambda: f"{what}: {why}")
            elif "ok" in first:
                res = run(bag.folder, [bag.nc(target)])["results"][0]
                ch.check(bag.differs(TOPICS[1], res) is None,
                         "export reports success but the file is incomplete",
                         lambda: f"{what}: {bag.differs(TOPICS[1], res)}")
            why = bag.differs(TOPICS[1], second)
            ch.check(why is None or "raised" in second, "incomplete data from the cache",
                     lambda: f"{what}; then cached load in the same process: {why}")
            ch.step(2)
        if action != "cached load" and target.exists() and target.read_bytes() != old:
            res = run(bag.folder, [bag.nc(target)])["results"][0]
            ch.step()
            ch.check(bag.differs(TOPICS[1], res) is None, "target replaced by an incomplete file",
                     lambda: f"{what}: {bag.differs(TOPICS[1], res)}")
        elif action != "cached load":
            ch.check(old is None or target.exists(), "target removed", what)
        later_loads(ch, bag, what)

    return interrupted


def twice(ch):
    """A crash, then a fault at every point of the attempt to recover."""
    bag = Bag(ch, TOPICS, 12)
    act = bag.cached(TOPICS[1])
    if "twice" not in _counts:
        _counts["twice"] = run(bag.folder, [act], 1, 0)["count"]
        shutil.rmtree(str(bag.folder / "cache"), ignore_errors=True)
    n = ch.choose("first crash", range(_counts["twice"]), free=True)
    m = ch.choose("second fault", range(_counts["twice"] + 1), free=True)
    mode = ch.choose("second fault kind", [CRASH, ERROR_ONCE], free=True)
    what = f"crash at {n}, then fault {mode} at {m}"
    ch.state(n, m, mode)
    run(bag.folder, [act], CRASH, n)
    r = run(bag.folder, [act], mode, m)
    for res in r["results"]:
        why = bag.differs(TOPICS[1], res)
        ch.check(why is None or "raised" in res, "incomplete data despite an error",
                 lambda: f"{what}: {why}")
    ch.step(2)
    later_loads(ch, bag, what)


PAIRS = [("nothing", "cached load", "cached load"), ("nothing", "cached load", "other topic"),
         ("older target", "export default", "export default")]
ALL_PAIRS = [(a, b, c) for a, b in [
    ("nothing", "cached load"), ("nothing", "export default"),
    ("other topic cached", "cached load"), ("older target", "export default")]
    for c in ("cached load", "export default", "other topic")]


def two_processes(ch, pairs=ALL_PAIRS):
    """One process is suspended at every operation while another one works."""
    initial, action, other = ch.choose("initial state, action, other process", pairs, free=True)
    bag = Bag(ch, TOPICS)
    target = bag.path.with_suffix(".nc")
    setup_initial(ch, bag, initial, action, target)

    def make(a):
        return {"cached load": bag.cached(TOPICS[1]), "export default": bag.export(TOPICS[1]),
                "other topic": bag.cached(TOPICS[0])}[a]

    key = ("two", initial, action)
    if key not in _counts:
        b2 = Bag(ch, TOPICS)
        setup_initial(ch, b2, initial, action, b2.path.with_suffix(".nc"))
        a2 = b2.cached(TOPICS[1]) if action == "cached load" else b2.export(TOPICS[1])
        _counts[key] = run(b2.folder, [a2], 1, 0)["count"]
    n = ch.choose("suspended at", range(_counts[key]), free=True)
    ch.state(key, other, n)
    what = f"{initial}; {action} suspended at {n} during {other}"
    r = run(bag.folder, [make(action)], PAUSE, n,
            other=[make(other)] + [bag.cached(TOPICS[1])])
    ch.step(3)
    ch.check(r["exit"] == 0 and r["other"] is not None and r["other"]["exit"] == 0,
             "process ended", lambda: f"{what}: {r}"[:600])
    seen = [(a, x) for a, x in zip([other, "cached load"], r["other"]["results"])]
    seen.append((action, r["results"][0]))
    for a, res in seen:
        if a == "export default":
            continue
        topic = TOPICS[0] if a == "other topic" else TOPICS[1]
        why = bag.differs(topic, res)
        ch.check(why is None or "raised" in res, "incomplete data from the cache",
                 lambda: f"{what}: {a}: {why}")
    if "export default" in (action, other):
        res = run(bag.folder, [bag.nc(target)])["results"][0]
        ok = bag.differs(TOPICS[1], res) is None
        ch.check(ok, "target replaced by an incomplete file",
                 lambda: f"{what}: {bag.differs(TOPICS[1], res)}")
    later_loads(ch, bag, what)


NAMES = ["/a/b", "/a_b", "a/b", "a_b", "_a/b", "_a_b", "/a/_b", "/a_/b", "/a/b/c", "/a/b_c",
         "/A/b", "/a//b", "/a__b", "/ab", "/camera/odom/sample", "/camera_odom/sample"]


def names(ch, orders=("aba", "bab")):
    """All pairs of topic names share nothing."""
    a, b = ch.choose("topics", list(itertools.combinations(NAMES, 2)), free=True)
    bag = Bag(ch, [a, b], 4)
    order = ch.choose("loads", orders, free=True)
    ch.state(a, b, order)
    for k in order:
        topic = {"a": a, "b": b}[k]
        res = run(bag.folder, [bag.cached(topic)])["results"]
        ch.step()
        why = bag.differs(topic, res[0])
        ch.check(why is None, "cached load", lambda: f"{a} and {b}, {topic}: {why}")
    made = sorted(set(bag.files()) - {"rec.bag"})
    ch.check(len(made) == 2, "cache entries", lambda: f"{a} {b}: {made}")
    ch.check(all(Path(f).parent == Path("cache") and f.endswith(".nc") for f in made),
             "place of the cache", lambda: f"{made}")
    ch.check(bag.path.read_bytes() == bag.bytes, "bag modified")
    ch.outcome(tuple(made))


def paths(ch):
    """Export writes exactly the requested file."""
    out, rel = ch.choose("path", [
        ("x.nc", True), ("deep/er/x.nc", True), ("x.nc", False), ("deep/er/x.nc", False),
        ("no_suffix", False), ("with.dots.v1.nc", True), ("x.h5", False), ("./x.nc", True),
        ("a b/ü.nc", False), ("cache/x.nc", False), (None, False)], free=True)
    as_path = ch.flag("path object", free=True)
    existing = ch.choose("existing file", ["no", "older", "unrelated neighbours"], free=True)
    topic = ch.choose("topic", TOPICS, free=True)
    ch.assume(out is not None or not as_path)
    bag = Bag(ch, TOPICS, 4)
    target = bag.folder / out if out else bag.path.with_suffix(".nc")
    name = str(target.relative_to(bag.folder))
    if existing == "older":
        run(bag.folder, [bag.export(TOPICS[0], str(target))])
    elif existing == "unrelated neighbours":
        target.parent.mkdir(parents=True, exist_ok=True)
        for s in (".bak", ".tmp", "~"):
            Path(str(target) + s).write_bytes(b"keep")
    before = bag.files()
    ch.state(out, rel, as_path, existing, topic)
    arg = out if rel or out is None else str(target)
    if as_path:
        from rigid_body_motion.ros import RosbagReader

        cwd = os.getcwd()
        os.chdir(bag.folder)
        try:
            with RosbagReader(bag.path) as r:
                r.export(topic, Path(arg))
        finally:
            os.chdir(cwd)
    else:
        res = run(bag.folder, [bag.export(topic, arg)], cwd=str(bag.folder))["results"]
        ch.check("ok" in res[0], "export", lambda: f"{res}")
    ch.step()
    after = bag.files()
    res = run(bag.folder, [bag.nc(target)])["results"][0]
    ch.check(bag.differs(topic, res) is None, "exported data", lambda: bag.differs(topic, res))
    changed = {f for f in after if f not in before or before[f] != after[f]}
    ch.check(changed == {name} or (existing == "older" and topic == TOPICS[0] and not changed),
             "files written", lambda: f"{changed}, expected {name}")
    ch.check(set(before) <= set(after), "files removed", lambda: f"{set(before) - set(after)}")
    ch.outcome(out, existing)


def bags(ch):
    """Two bags with the same topic in one folder."""
    other = ch.choose("other bag", ["elsewhere", "same folder"], free=True)
    first, second = ch.choose("names", [
        ("rec.bag", "other.bag"), ("run.1.bag", "run.2.bag"), ("rec.bag", "rec2.bag"),
        ("1_rec.bag", "2_rec.bag"), ("rec.bag", "rec.orig.bag"), ("a b.bag", "a_b.bag"),
        ("Rec.bag", "rec.bag")], free=True)
    how = ch.choose("read by", ["cache", "default export"], free=True)
    bag = Bag(ch, TOPICS, 4, first)
    folder = bag.folder
    if other == "elsewhere":
        folder = bag.folder / "second"
        folder.mkdir()
    bag2 = Bag(ch, TOPICS, 4, second, folder, 2)
    ch.state(other, first, second, how)
    if how == "default export":
        for b in (bag, bag2):
            res = run(bag.folder, [b.export(TOPICS[1], None)])["results"][0]
            ch.check("ok" in res, "export", lambda: f"{b.path.name}: {res}")
        for b in (bag, bag2):
            res = run(bag.folder, [b.nc(b.path.with_suffix(".nc"))])["results"][0]
            ch.step()
            why = b.differs(TOPICS[1], res)
            ch.check(why is None, f"exported data of another bag, {other}",
                     lambda: f"{b.path.name}: {why}")
        ch.outcome(other, how)
        return
    for b in (bag, bag2, bag):
        for topic in TOPICS:
            res = run(bag.folder, [b.cached(topic)])["results"][0]
            ch.step()
            why = b.differs(topic, res)
            ch.check(why is None or "raised" in res, f"data of another bag, {other}",
                     lambda: f"{b.path.name} {topic}: {why}")
    ch.outcome(other, how)


CONFIGS = [("nothing", "cached load"), ("nothing", "export default"),
           ("nothing", "export to path"), ("older target", "export default"),
           ("older target", "export to path"), ("other topic cached", "cached load"),
           ("cached", "cached load")]
MODES = {"crash before": CRASH, "torn": TORN, "error": ERROR_ONCE, "errors from here": ERROR_FROM}


def scenarios(tier):
    if _server is None:
        start_server()
    out = [Scenario("interrupted", make_interrupted(
        CONFIGS if tier != "quick" else [CONFIGS[i] for i in (0, 3, 6)], MODES), None),
        Scenario("two processes", functools.partial(two_processes, pairs=PAIRS)
                 if tier == "quick" else two_processes, None),
        Scenario("topic names", functools.partial(names, orders=("aba",))
                 if tier == "quick" else names, None), Scenario("export paths", paths, None),
        Scenario("two bags", bags, None)]
    if tier != "quick":
        out.append(Scenario("interrupted recovery", twice, None))
    return out
