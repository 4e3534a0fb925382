"""Rosbag write/read round trip preserves every message."""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from mc import ref
from mc.checks.c16 import BASE
from mc.explore import Scenario
from mc.util import cmp, fresh, scratch

ASSUMPTIONS = [
    "stand-in for the rosbag package: bag files with the same interface, messages read in "
    "the order of their record times (no ROS installation in this environment)",
    "non-negative times, resolved to 1 us (float seconds)",
    "exported data: resolution 1e-4, range of a scaled 32-bit integer",
]
US = 1e-6

VALUES = {
    "generic": lambda k: ((1.0 + k, -2.5, 0.25 * k), ref.axang((1, 2, -1), 0.4 + k)),
    "zero and identity": lambda k: ((0.0, 0.0, 0.0), np.array([1.0, 0, 0, 0])),
    "negative scalar": lambda k: ((-k, 1e-3, 1e4), np.array([-0.5, 0.5, -0.5, 0.5])),
    "not normalised": lambda k: ((3.0, 2.0, 1.0), np.array([0.0, 0.0, 3.0, 4.0])),
    "axes": lambda k: ((1.0, 2.0, 3.0), np.roll([1.0, 0, 0, 0], 1 + k % 3)),
}
OFFS = np.concatenate(([0.0, 0.1, 1.337, 3600.5], 3601 + np.arange(3000) * 0.25))


def stamps(kind, n):
    if kind == "float":
        return OFFS[:n] + 1.0, OFFS[:n] + 1.0
    if kind == "epoch float":
        return OFFS[:n] + 1.6e9, OFFS[:n] + 1.6e9
    if kind == "int":
        return np.arange(n), np.arange(n).astype(float)
    if kind == "list":
        return list(OFFS[:n] + 2.0), OFFS[:n] + 2.0
    if kind == "int32":
        return np.arange(5, 5 + n, dtype="int32"), np.arange(5, 5 + n).astype(float)
    per = {"ns": 10**9, "us": 10**6, "ms": 10**3}[kind]
    ts = BASE.astype(f"datetime64[{kind}]") + np.round(OFFS[:n] * per).astype(
        "int64").astype(f"timedelta64[{kind}]")
    return ts, ts.astype("datetime64[ns]").astype("int64") / 1e9


TKINDS = ["float", "ns", "epoch float", "int", "us", "ms", "list", "int32"]


def data(values, n, off=0):
    rows = [VALUES[values](k + off) for k in range(n)]
    t = np.array([r[0] for r in rows], float).reshape(n, 3)
    q = np.array([r[1] for r in rows], float).reshape(n, 4)
    return t, q


class Folder:
    def __init__(self, ch):
        self.path = Path(tempfile.mkdtemp(dir=scratch()))
        ch.defer(lambda: shutil.rmtree(str(self.path), ignore_errors=True))


def secs(ds):
    t = np.asarray(ds["time"].values)
    if t.dtype.kind != "M":
        return None
    return t.astype("datetime64[ns]").astype("int64") / 1e9


def check_read(ch, route, got, want, tol):
    """``want``: dict with timestamps, position, orientation (+ velocities)."""
    ch.step()
    for k, v in want.items():
        g = np.asarray(got.get(k))
        ch.check(k in got and g.shape == v.shape, "shape or number of messages",
                 lambda: f"{route}: {k} {g.shape}, expected {v.shape}")
        t = US if k == "timestamps" else tol
        ch.check(np.all(np.abs(g - v) <= t), f"{k} differ",
                 lambda: f"{route}: {cmp(g, v)()}")
    ch.check(set(got) == set(want), "contents", lambda: f"{route}: {sorted(got)}")


def as_dict(ch, ds, route):
    s = secs(ds)
    ch.check(s is not None, "time coordinate", lambda: f"{route}: {ds}")
    out = {"timestamps": s}
    ch.check(list(np.atleast_1d(ds["cartesian_axis"].values)) == ["x", "y", "z"]
             and list(ds["quaternion_axis"].values) == ["w", "x", "y", "z"], "axis labels",
             lambda: f"{route}: {ds}")
    for v in ds.data_vars:
        dim = "quaternion_axis" if v == "orientation" else "cartesian_axis"
        out[v] = ds[v].transpose("time", dim).values
    return out


def load_nc(path):
    import xarray as xr

    with xr.open_dataset(path) as ds:
        return ds.load()


ROUTES = ["messages", "dataset", "export to path", "export to str", "export default", "cache"]


def read(ch, reader, route, topic, folder):
    """Read the topic by one of the routes; returns (dict, tolerance)."""
    if route == "messages":
        m = reader.load_messages(topic)
        return m, 1e-12
    if route == "dataset":
        return as_dict(ch, reader.load_dataset(topic), route), 1e-12
    if route.startswith("export"):
        if route.endswith("default"):
            reader.export(topic)
            path = reader.bag_file.with_suffix(".nc")
        else:
            path = folder / "out" / "deep" / "export.nc"
            reader.export(topic, path if route.endswith("path") else str(path))
        ch.check(path.exists(), "exported file", route)
        return as_dict(ch, load_nc(path), route), 0.51e-4
    ds = reader.load_dataset(topic, cache=True)
    out = as_dict(ch, ds.load(), route)
    ds.close()
    ds = reader.load_dataset(topic, cache=True)
    again = as_dict(ch, ds.load(), route)
    ds.close()
    for k in out:
        ch.check(np.array_equal(out[k], again[k]), "second cached load", k)
    return out, 0.51e-4


def check_bag(ch, path, writes):
    """Frame ids, topics, order and scalar-last fields in the bag itself."""
    import rosbag

    want = [(topic, fr, s, t, q) for topic, fr, ss, ts, qs in writes
            for s, t, q in zip(ss, ts, qs)]
    with rosbag.Bag(path) as bag:
        got = list(bag.read_messages())
    ch.check(len(got) == len(want), "number of messages in the bag",
             lambda: f"{len(got)}, expected {len(want)}")
    for g, (topic, fr, s, t, q) in zip(got, want):
        m = g.message
        ch.check(g.topic == topic and m._type == "geometry_msgs/TransformStamped",
                 "topic or type", lambda: f"{g}")
        ch.check((m.header.frame_id, m.child_frame_id) == fr, "frame ids", lambda: f"{m} {fr}")
        ch.check(abs(m.header.stamp.to_sec() - s) < US, "header stamp", lambda: f"{m} {s}")
        v, r = m.transform.translation, m.transform.rotation
        ch.check(np.allclose([v.x, v.y, v.z], t, 0, 1e-12) and
                 np.allclose([r.w, r.x, r.y, r.z], q, 0, 1e-12), "fields",
                 lambda: f"{m} {t} {q}")
        ch.step()


def dataset(t, q, ts, order, names):
    import xarray as xr

    pos, ori, time = names
    dp, dq = ([time, "cartesian_axis"], [time, "quaternion_axis"])
    if order == "axis first":
        t, q, dp, dq = t.T, q.T, dp[::-1], dq[::-1]
    return xr.Dataset(
        {pos: (dp, t), ori: (dq, q)},
        {time: np.asarray(ts), "cartesian_axis": ["x", "y", "z"],
         "quaternion_axis": ["w", "x", "y", "z"]})


def write_one(ch, w, k, topic, n, off=0):
    tkind = ch.choose(f"timestamps {k}", TKINDS)
    values = ch.choose(f"values {k}", list(VALUES))
    how = ch.choose(f"written as {k}", ["arrays", "dataset", "lists", "dataset, axis first",
                                        "dataset, other names", "float32"])
    fr = ch.choose(f"frames {k}", [("world", "body"), ("", "a/b")])
    ts, s = stamps(tkind, n)
    t, q = data(values, n, off)
    ch.assume(tkind != "list" or not how.startswith("dataset"))
    if how == "float32":
        t, q = t.astype("float32"), q.astype("float32")
    if how.startswith("dataset"):
        names = ("p", "o", "stamp") if how.endswith("names") else ("position", "orientation",
                                                                   "time")
        ds = dataset(t, q, ts, how.split(", ")[-1], names)
        before = ds.copy(deep=True)
        kw = dict(timestamps="stamp", translation="p", rotation="o") if how.endswith(
            "names") else {}
        w.write_transform_stamped_dataset(ds, topic, *fr, **kw)
        ch.check(ds.identical(before), "dataset modified")
    elif how == "lists":
        if n == 0:
            t, q = np.empty((0, 3)), np.empty((0, 4))
            w.write_transform_stamped(ts, t, q, topic, *fr)
        else:
            w.write_transform_stamped(ts, t.tolist(), q.tolist(), topic, *fr)
    else:
        w.write_transform_stamped(ts, t, q, topic, *fr)
    ch.step()
    return topic, fr, s, t.astype(float), q.astype(float)


def long_topics(ch):
    """Thousands of messages."""
    import _ros
    from rigid_body_motion.ros import RosbagReader, RosbagWriter

    fresh()
    _ros.reset()
    folder = Folder(ch).path
    path = folder / "a.bag"
    n = ch.choose("samples", [1100, 3000], free=True)
    second = ch.choose("second topic", [0, 2, 1500], free=True)
    routes = ch.choose("read by", {"direct": ROUTES[:2], "files": ROUTES[2:]}, free=True)
    with RosbagWriter(path) as w:
        writes = [write_one(ch, w, 0, "/a", n)]
        if second:
            writes.append(write_one(ch, w, 1, "/b", second, 5))
    ch.state(n, second, writes[0][2].tobytes(), writes[0][3].tobytes())
    check_bag(ch, path, writes)
    with RosbagReader(path) as r:
        for topic, _, s, t, q in writes:
            for route in routes:
                got, tol = read(ch, r, route, topic, folder)
                check_read(ch, f"{topic} {route}",
                           got, {"timestamps": s, "position": t, "orientation": q},
                           # 32 bits at a resolution of 1e-4
                           tol)
    ch.outcome(n, second)


def make_roundtrip(max_writes):
    def roundtrip(ch):
        """Interleaved writes to two topics, read back by every route."""
        import _ros
        from rigid_body_motion.ros import RosbagReader, RosbagWriter

        fresh()
        _ros.reset()
        folder = Folder(ch).path
        path = folder / "a.bag"
        k = ch.choose("writes", range(1, max_writes + 1), free=True)
        names = ch.choose("topics", [("/tracker/pose", "/cam"), ("/cam", "/cam/2"),
                                     ("/tracker/cam", "/cam"), ("/cam", "cam"),
                                     ("/Cam", "/cam"), ("/a_b", "/a/b")])
        writes = []
        with RosbagWriter(str(path) if ch.flag("str path") else path) as w:
            for i in range(k):
                topic = ch.choose(f"topic {i}", names, free=True)
                n = ch.choose(f"samples {i}", [2, 1, 0, 3], free=True)
                writes.append(write_one(ch, w, i, topic, n, 10 * i))
        ch.state(k, tuple((x[0], x[1], len(x[2]), x[2].tobytes(), x[3].tobytes()) for x in writes))
        check_bag(ch, path, writes)
        routes = ch.choose("read by", {"direct": ROUTES[:2], "files": ROUTES[2:]})
        before = path.read_bytes()
        with RosbagReader(path) as r:
            topics = {x[0] for x in writes if len(x[2])}
            ch.check(r.get_topics_and_types() == {
                t: "geometry_msgs/TransformStamped" for t in topics}, "topics and types")
            for topic in sorted(topics):
                sel = [x for x in writes if x[0] == topic]
                want = {"timestamps": np.concatenate([x[2] for x in sel]),
                        "position": np.concatenate([x[3] for x in sel]),
                        "orientation": np.concatenate([x[4] for x in sel])}
                for route in routes:
                    got, tol = read(ch, r, route, topic, folder)
                    check_read(ch, f"{topic} {route}", got, want, tol)
            for t in ("/none", "", *set(names) - topics):
                ch.raises(lambda: r.load_messages(t), "unknown topic accepted")
        ch.check(path.read_bytes() == before, "bag modified by reading")
        ch.outcome(tuple(sorted(topics)), k)

    return roundtrip


def mixed(ch):
    """Odometry and transform messages recorded out of step, other types between."""
    import _ros
    import rosbag
    from rigid_body_motion.ros import RosbagReader

    fresh()
    _ros.reset()
    folder = Folder(ch).path
    path = folder / "b.bag"
    n = ch.choose("odometry messages", [2, 1, 3], free=True)
    m = ch.choose("transform messages", [2, 1, 0, 3], free=True)
    values = ch.choose("values", list(VALUES), free=True)
    base = ch.choose("time base", [1.6e9, 5.0, 0.0])
    lag = ch.choose("record time minus header stamp", [0.3, 0.0, 1e3])
    order = ch.choose("interleaving", ["alternating", "one after the other", "reversed"])
    other = ch.flag("other type")
    swap = ch.flag("stamps out of order")
    routes = ch.choose("read by", {"direct": ROUTES[:2], "files": ROUTES[2:]}, free=True)
    t, q = data(values, n)
    t2, q2 = data(values, m, 7)
    lin = np.arange(3.0 * n).reshape(n, 3) - 4.5
    ang = 0.125 * np.arange(3.0 * n).reshape(n, 3) + 0.5
    s, s2 = base + OFFS[:n], base + OFFS[:m] + 0.05
    if swap:
        s = s[::-1]
    msgs = []
    for i in range(n):
        o = _ros.Odometry()
        o.header.stamp = _ros.Time.from_sec(s[i])
        o.pose.pose.position = _ros.Point(*t[i])
        o.pose.pose.orientation = _ros.Quaternion(*q[i][1:], q[i][0])
        o.twist.twist.linear = _ros.Vector3(*lin[i])
        o.twist.twist.angular = _ros.Vector3(*ang[i])
        msgs.append((2 * i, "/odom", o))
    for i in range(m):
        o = _ros.TransformStamped()
        o.header.stamp = _ros.Time.from_sec(s2[i])
        o.transform.translation = _ros.Vector3(*t2[i])
        o.transform.rotation = _ros.Quaternion(*q2[i][1:], q2[i][0])
        msgs.append((2 * i + 1 if order == "alternating" else 100 + i, "/odom/tf", o))
    if other:
        msgs.append((3, "/chatter", _ros.String("hello")))
        p = _ros.PoseStamped()
        msgs.append((4, "/pose", p))
    if order == "reversed":
        msgs = [(300 - k, a, b) for k, a, b in msgs]
    msgs.sort(key=lambda x: x[0])
    with rosbag.Bag(path, "w") as bag:
        for k, topic, o in msgs:
            bag.write(topic, o, t=_ros.Time.from_sec(base + lag + 0.01 * k))
    ch.state(n, m, values, base, lag, order, other, swap)
    r = -1 if order == "reversed" else 1
    want = {"timestamps": s[::r], "position": t[::r], "orientation": q[::r],
            "linear_velocity": lin[::r], "angular_velocity": ang[::r]}
    want2 = {"timestamps": s2[::r], "position": t2[::r], "orientation": q2[::r]}
    with RosbagReader(str(path)) as rd:
        types = {"/odom": "nav_msgs/Odometry"}
        if m:
            types["/odom/tf"] = "geometry_msgs/TransformStamped"
        if other:
            types.update({"/chatter": "std_msgs/String", "/pose": "geometry_msgs/PoseStamped"})
        ch.check(rd.get_topics_and_types() == types, "topics and types",
                 lambda: f"{rd.get_topics_and_types()}")
        for topic, w in [("/odom", want)] + ([("/odom/tf", want2)] if m else []):
            for route in routes:
                got, tol = read(ch, rd, route, topic, folder)
                check_read(ch, f"{topic} {route}", got, w, tol)
        for topic in ("/chatter", "/pose") if other else ():
            ch.raises(lambda: rd.load_messages(topic), "unsupported type accepted")
            ch.raises(lambda: rd.load_dataset(topic), "unsupported type accepted")
            ch.raises(lambda: rd.export(topic, folder / "x.nc"), "unsupported type accepted")
            ch.raises(lambda: rd.load_dataset(topic, cache=True), "unsupported type accepted")
            ch.check(not (folder / "x.nc").exists(), "file written for an unsupported type")
    ch.check(all(b._closed for b in _ros.W.bags), "bag left open")
    for f in (lambda: rd.load_messages("/odom"), lambda: rd.get_topics_and_types(),
              lambda: rd.load_dataset("/odom"), lambda: rd.export("/odom", folder / "y.nc")):
        ch.raises(f, "use outside the context manager")
    ch.check(not (folder / "y.nc").exists(), "file written outside the context manager")
    with rd:
        got, tol = read(ch, rd, "messages", "/odom", folder)
        check_read(ch, "reopened", got, want, tol)
    ch.outcome(n, m, order, other)


def stored(ch):
    """Every value near zero and around every power of two survives the storage."""
    import _ros
    from rigid_body_motion.ros import RosbagReader, RosbagWriter

    fresh()
    _ros.reset()
    folder = Folder(ch).path
    path = folder / "s.bag"
    block = ch.choose("values", ["-2..-1", "-1..0", "0..1", "1..2", "powers of two"], free=True)
    route = ch.choose("read by", ROUTES, free=True)
    if block.startswith("powers"):
        k = np.array([s * (2**j + d) for j in range(31) for d in (-1, 0, 1) for s in (1, -1)])
        k = k[np.abs(k) < 2**31 - 1]
    else:
        k = 10**4 * int(block.split("..")[0]) + np.arange(10**4 + 1)
    n = -(-len(k) // 7)
    x = np.resize(k, (n, 7)) * 1e-4
    ts = np.arange(n) * 0.25
    with RosbagWriter(path) as w:
        w.write_transform_stamped(ts, x[:, :3], x[:, 3:], "/t", "a", "b")
    ch.state(block, route)
    with RosbagReader(path) as r:
        got, tol = read(ch, r, route, "/t", folder)
    check_read(ch, route, got, {"timestamps": ts, "position": x[:, :3],
                                "orientation": x[:, 3:]}, tol)
    ch.outcome(block)


def rejected(ch):
    """Wrong shapes and use outside the context manager write nothing."""
    import _ros
    from rigid_body_motion.ros import RosbagReader, RosbagWriter

    fresh()
    _ros.reset()
    folder = Folder(ch).path
    path = folder / "c.bag"
    n = ch.choose("samples", [2, 1, 3, 4], free=True)
    what = ch.choose("defect", [
        "too few timestamps", "too many timestamps", "2d timestamps", "scalar timestamp",
        "translation with 4 columns", "translation with 2 columns", "transposed translation",
        "1d translation", "3d translation", "rotation with 3 columns", "transposed rotation",
        "1d rotation", "3d rotation", "short rotation", "long translation",
        "outside", "outside, dataset", "after closing"], free=True)
    first = ch.flag("after a valid write", free=True)
    as_lists = ch.flag("lists", free=True)
    ts, _ = stamps("float", n)
    t, q = data("generic", n)
    ch.assume(not (what == "transposed translation" and n == 3))
    ch.assume(not (what == "transposed rotation" and n == 4))
    bad = {
        "too few timestamps": (ts[:-1], t, q), "too many timestamps": (np.append(ts, 99.0), t, q),
        "2d timestamps": (ts[:, None], t, q), "scalar timestamp": (ts[0], t, q),
        "translation with 4 columns": (ts, np.hstack([t, t[:, :1]]), q),
        "translation with 2 columns": (ts, t[:, :2], q), "transposed translation": (ts, t.T, q),
        "1d translation": (ts, t[0], q), "3d translation": (ts, t[None], q),
        "rotation with 3 columns": (ts, t, q[:, 1:]), "transposed rotation": (ts, t, q.T),
        "1d rotation": (ts, t, q[0]), "3d rotation": (ts, t, q[None]),
        "short rotation": (ts, t, q[:-1]), "long translation": (ts, np.vstack([t, t[:1]]), q),
    }.get(what, (ts, t, q))
    if as_lists:
        bad = tuple(np.asarray(b).tolist() for b in bad)
    ch.state(n, what, first, as_lists)
    writes = []
    w = RosbagWriter(path)
    if what.startswith("outside"):
        if what.endswith("dataset"):
            ds = dataset(t, q, ts, "", ("position", "orientation", "time"))
            ch.raises(lambda: w.write_transform_stamped_dataset(ds, "/t", "a", "b"),
                      "write outside the context manager")
        else:
            ch.raises(lambda: w.write_transform_stamped(*bad, "/t", "a", "b"),
                      "write outside the context manager")
        ch.check(not path.exists(), "bag created outside the context manager")
    with w:
        if first:
            w.write_transform_stamped(ts, t, q, "/t", "a", "b")
            writes.append(("/t", ("a", "b"), ts, t, q))
        if what != "after closing" and not what.startswith("outside"):
            ch.raises(lambda: w.write_transform_stamped(*bad, "/t", "a", "b"),
                      "wrong shape accepted")
        w.write_transform_stamped(ts + 9, t, q, "/t", "a", "b")
        writes.append(("/t", ("a", "b"), ts + 9, t, q))
    ch.check(all(b._closed for b in _ros.W.bags), "bag left open")
    if what == "after closing":
        ch.raises(lambda: w.write_transform_stamped(*bad, "/t", "a", "b"), "write after closing")
    check_bag(ch, path, writes)
    with RosbagReader(path) as r:
        m = r.load_messages("/t")
    check_read(ch, "messages", m, {
        "timestamps": np.concatenate([x[2] for x in writes]),
        "position": np.concatenate([x[3] for x in writes]),
        "orientation": np.concatenate([x[4] for x in writes])}, 1e-12)
    ch.outcome(what, first)


def scenarios(tier):
    q = tier == "quick"
    return [Scenario("round trip", make_roundtrip(2 if q else 3), 1 if q else 2),
            Scenario("mixed bag", mixed, 1 if q else None), Scenario("rejected", rejected, None),
            Scenario("stored values", stored, None),
            Scenario("long topics", long_topics, 0 if q else 1)]
