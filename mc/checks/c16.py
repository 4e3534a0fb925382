"""ROS messages and TF export preserve frames, poses and stamps."""
import itertools

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, fresh, parent_vectors

ASSUMPTIONS = [
    "stand-ins for the ROS packages with genpy message/time and tf2 buffer "
    "semantics (no ROS installation in this environment)",
    "unit quaternions; non-negative times; times resolved to 1 us (float seconds)",
    "numeric timestamps are seconds, as everywhere in the library",
]

US = 1e-6


def ros():
    import _ros

    rbm = fresh()
    return rbm, _ros.reset()


def filled(w):
    """The buffer of the transformer that was built."""
    return max(w.buffers, key=lambda b: len(b.inserts))


V3 = {"(1, -2, 0.5)": (1.0, -2.0, 0.5), "zero": (0.0, 0.0, 0.0), "large": (1e9, -1e-9, 3.0),
      "ints": (1, 2, 3)}
Q4 = {"generic": (0.1, 0.7, -0.5, 0.5), "identity": (1.0, 0.0, 0.0, 0.0),
      "x": (0.0, 1.0, 0.0, 0.0), "y": (0, 0, 1, 0), "z": (0.0, 0.0, 0.0, -1.0)}
CONT = {"tuple": tuple, "list": list, "array": np.array,
        "float32": lambda v: np.array(v, "float32"), "row of array": lambda v: np.array([v, v])[1]}
TIMES = [0.0, 1.5, 12345.678901, 1.6e9 + 0.25, 3, "default"]


def close(a, b, mixed=False):
    """Equal up to single precision (of the largest element for inverse transforms)."""
    b = np.array(b, float)
    return np.allclose(np.array(a, float), b, rtol=1e-6,
                       atol=1e-6 * abs(b).max() + 1e-8 if mixed else 1e-8 * (abs(b).max() < 1e3))


def messages(ch):
    """Every make/unpack pair, wrapped and unwrapped."""
    rbm, w = ros()
    from rigid_body_motion.ros import msg as m

    kind = ch.choose("message", ["transform", "pose", "twist", "vector", "point", "quaternion",
                                 "static frame"], free=True)
    a = ch.choose("vector", V3, free=True)
    b = ch.choose("second vector", V3, free=True)
    q = ch.choose("quaternion", Q4, free=True)
    cont = ch.choose("container", CONT, free=True)
    fid = ch.choose("frame", ["world", "", "odom/left"], free=True)
    t = ch.choose("time", TIMES, free=True)
    kw = {} if t == "default" else {"time": t}
    want_t = 0.0 if t == "default" else float(t)
    ch.assume(kind in ("twist",) or b == V3["zero"])
    ch.assume(kind in ("transform", "pose", "quaternion", "static frame") or q == Q4["generic"])
    ch.state(kind, a, b, q, cont.__name__, fid, t)
    child, mixed = None, False
    if kind == "transform":
        msg = m.make_transform_msg(cont(a), cont(q), fid, "body", **kw)
        want, child = (a, q), "body"
        inner, un, typ = msg.transform, m.unpack_transform_msg, "TransformStamped"
        raw = (inner.translation, inner.rotation)
    elif kind == "pose":
        msg = m.make_pose_msg(cont(a), cont(q), fid, **kw)
        want = (a, q)
        inner, un, typ = msg.pose, m.unpack_pose_msg, "PoseStamped"
        raw = (inner.position, inner.orientation)
    elif kind == "twist":
        msg = m.make_twist_msg(cont(a), cont(b), fid, **kw)
        want = (a, b)
        inner, un, typ = msg.twist, m.unpack_twist_msg, "TwistStamped"
        raw = (inner.linear, inner.angular)
    elif kind == "vector":
        msg = m.make_vector_msg(cont(a), fid, **kw)
        want, inner, un, typ = (a,), msg.vector, m.unpack_vector_msg, "Vector3Stamped"
        raw = (inner,)
    elif kind == "point":
        msg = m.make_point_msg(cont(a), fid, **kw)
        want, inner, un, typ = (a,), msg.point, m.unpack_point_msg, "PointStamped"
        raw = (inner,)
    elif kind == "quaternion":
        msg = m.make_quaternion_msg(cont(q), fid, **kw)
        want, inner, un, typ = (q,), msg.quaternion, m.unpack_quaternion_msg, "QuaternionStamped"
        raw = (inner,)
    else:
        rbm.register_frame("world")
        mixed = inv = fid == ""
        rbm.register_frame("odom/left", "world", (9.0, 9, 9))
        rbm.register_frame("child", fid or "world", cont(a), cont(q), inverse=inv)
        msg = m.static_rf_to_transform_msg(rbm.registry["child"], **kw)
        fid, child = fid or "world", "child"
        want = (a, q)
        if inv:
            R = ref.Rigid(ref.qmat(q), np.array(a, float)).inv()
            want = (R.t, ref.qinv(q))
        inner, un, typ = msg.transform, m.unpack_transform_msg, "TransformStamped"
        raw = (inner.translation, inner.rotation)
    ch.step()
    ch.check(type(msg).__name__ == typ, "message type", f"{msg}")
    msg.raw()  # must be serialisable
    ch.check(msg.header.frame_id == fid, "frame id", f"{msg}")
    if child is not None:
        ch.check(msg.child_frame_id == child, "child frame id", f"{msg}")
    ch.check(abs(msg.header.stamp.to_sec() - want_t) < US, "time stamp", f"{msg}")
    for r, x in zip(raw, want):
        f = [r.x, r.y, r.z] + ([r.w] if hasattr(r, "w") else [])
        x = list(x[1:]) + [x[0]] if len(x) == 4 else list(x)
        ch.check(close(f, x, mixed), "fields", f"{msg} {want}")
    for got in (un(msg, stamped=True), un(inner), un(inner, stamped=False)):
        ch.step()
        got = got if len(want) == 2 else (got,)
        ch.check(len(got) == len(want) and all(
            len(g) == len(x) and close(g, x, mixed)
            for g, x in zip(got, want)), "unpacked", f"{got} {want}")
    ch.outcome(kind, fid, t, a, q)


BASE = np.datetime64("2021-05-01T10:00:00", "ns")
GRIDS = {
    "tenths": 0.1 * np.arange(1, 6),
    "single": np.array([0.7]),
    "odd": np.array([0.137, 1.003, 2.71, 3.3, 7.77]),
    "late": 0.1 * np.arange(1, 6) + 2.0,
    "long": 3.7 * np.arange(1, 8),
    "two": np.array([0.2, 0.9]),
    "many": 0.011 * np.arange(1, 1100),
}


def to_stamps(g, kind):
    if kind == "float":
        return g.copy()
    if kind == "float, epoch":
        return g + 1.6e9
    if kind == "int":
        return np.round(g * 10).astype(int)
    if kind == "float32":
        return g.astype("float32")
    unit = kind
    per = {"ns": 10**9, "us": 10**6, "ms": 10**3}[unit]
    return BASE.astype(f"datetime64[{unit}]") + np.round(g * per).astype(
        "int64").astype(f"timedelta64[{unit}]")


def seconds(ts):
    ts = np.asarray(ts)
    if ts.dtype.kind == "M":
        return ts.astype("datetime64[ns]").astype("int64") / 1e9
    return ts.astype(float)


def pose(i, n=None):
    t = np.array([1.0 + i, -0.5 * i, 2.0])
    q = ref.axang((1, i, -1), 0.5 + 0.4 * i)
    if n is None:
        return t, q
    k = np.arange(n)[:, None]
    tt = t + k * np.array([0.5, -1.0, 0.2 * i])
    qq = ref.qmul(np.tile(q, (n, 1)), ref.axang((0, 1, 1), 0.2 * np.arange(n)))
    return tt, qq


def build(ch, rbm, kinds, parents, tkind, grids):
    names = [f"f{i}" for i in range(len(kinds) + 1)]
    rbm.register_frame(names[0])
    info = {}
    for i, (k, p) in enumerate(zip(kinds, parents), 1):
        inverse = k.endswith("inverse")
        if k.startswith("static"):
            t, q = pose(i)
            rbm.register_frame(names[i], names[p], t, q, inverse=inverse)
        elif k == "bare":
            rbm.register_frame(names[i], names[p])
        else:
            g = GRIDS[grids[i - 1]]
            t, q = pose(i, len(g))
            rbm.register_frame(names[i], names[p], t, q, to_stamps(g, tkind), inverse=inverse,
                               discrete=k == "discrete")
        f = rbm.registry[names[i]]
        info[names[i]] = (names[p], np.array(f.translation), np.array(f.rotation),
                          None if f.timestamps is None else np.array(f.timestamps))
    return names, info


KINDS = ["static", "moving", "static inverse", "moving inverse", "discrete", "bare"]


def transformer(ch):
    """Buffer contents and queries of every small tree."""
    rbm, w = ros()
    from rigid_body_motion.ros import Transformer

    n = ch.choose("frames", [2, 1, 3], free=True)
    parents = ch.choose("parents", parent_vectors(n + 1), free=True)
    kinds = [ch.choose(f"frame {i + 1}", KINDS[:2] if n == 3 else KINDS, free=True)
             for i in range(n)]
    start = ch.choose("constructed from", range(n + 1), free=True)
    tkind = ch.choose("timestamps", ["float", "ns", "float, epoch", "us", "ms", "int",
                                     "float32"])
    gopts = [k for k in GRIDS if k != "many"]
    grids = [ch.choose(f"grid {i + 1}", gopts) if k in ("moving", "moving inverse", "discrete")
             else None for i, k in enumerate(kinds)]
    names, info = build(ch, rbm, kinds, parents, tkind, grids)
    ch.state(n, parents, tuple(kinds), start, tkind, tuple(grids))
    tr = Transformer.from_reference_frame(rbm.registry[names[start]])
    ch.step()
    buf = filled(w)
    got = []
    for how, m in buf.inserts:
        t, r = m.transform.translation, m.transform.rotation
        got.append((how, m.header.frame_id, m.child_frame_id, m.header.stamp.to_sec(),
                    (t.x, t.y, t.z), (r.w, r.x, r.y, r.z)))
    want = []
    for f, (p, t, q, ts) in info.items():
        if ts is None:
            want.append(("static", p, f, 0.0, tuple(t), tuple(q)))
        else:
            for i, s in enumerate(seconds(ts)):
                want.append(("stamped", p, f, s, tuple(t[i]), tuple(q[i])))
    ch.check(len(got) == len(want), "number of transforms", lambda: f"{got}\n{want}")
    # order between frames does not matter, order within a frame does
    for f in info:
        a = [x for x in got if x[2] == f]
        b = [x for x in want if x[2] == f]
        ch.check(len(a) == len(b), "number of transforms", lambda: f"{a}\n{b}")
        for x, y in zip(a, b):
            ch.check(x[:3] == y[:3], "kind or frame ids", lambda: f"{x}\n{y}")
            ch.check(abs(x[3] - y[3]) < US, "time stamp", lambda: f"{x}\n{y}")
            ch.check(np.allclose(x[4], y[4]) and np.allclose(x[5], y[5]), "pose",
                     lambda: f"{x}\n{y}")
    # every recorded sample can be looked up
    for f, (p, t, q, ts) in info.items():
        for i, s in enumerate([5.0] if ts is None else seconds(ts)):
            ch.check(tr.can_transform(p, f, s), "sample not available",
                     lambda: f"{f} at {s}, cache {buf.cache_ns} ns")
            gt, gq = tr.lookup_transform(p, f, s)
            ch.step(2)
            wt, wq = (t, q) if ts is None else (t[i], q[i])
            ch.check(np.allclose(gt, wt) and ref.same_quat(np.array(gq), np.array(wq), 1e-7),
                     "looked-up sample", lambda: f"{gt} {gq} {wt} {wq}")
    ch.check(not tr.can_transform(names[0], "nope"), "unknown frame")
    ch.step()
    # all queries between two frames agree with the library
    v, qq = np.array([0.3, -1.0, 2.0]), np.array([0.5, 0.5, -0.1, 0.7])
    qq /= np.linalg.norm(qq)
    for a, b in itertools.permutations(names, 2):
        path = rel_path(info, a, b)
        mov = [f for f in path if info[f][3] is not None]
        if any(kinds[int(f[1:]) - 1] == "discrete" for f in mov) and len(mov) > 1:
            continue
        lt, lq, lts = rbm.registry[a].lookup_transform(b) if not mov else (None, None, None)
        if mov:
            lo = max(seconds(info[f][3])[0] for f in mov)
            hi = min(seconds(info[f][3])[-1] for f in mov)
            if lo > hi or (lo == hi and len(mov) > 1):
                continue
            lt, lq, lts = rbm.registry[a].lookup_transform(b)
            times = seconds(lts)
        else:
            lt, lq, times = [lt], [lq], [3.0]
        for t, q, s in zip(lt, lq, times):
            if not path_exact(info, mov, s):
                continue
            R = ref.Rigid(ref.qmat(q), t)
            gt, gq = tr.lookup_transform(b, a, s)
            ch.check(np.allclose(gt, t, atol=1e-5) and same(gq, q), "lookup",
                     lambda: f"{a}->{b} at {s}: {gt} {gq}, library {t} {q}")
            ch.check(np.allclose(tr.transform_point(v, b, a, s), R.point(v), atol=1e-5),
                     "point", lambda: f"{a}->{b}")
            ch.check(np.allclose(tr.transform_vector(v, b, a, s), R.vector(v), atol=1e-5),
                     "vector", lambda: f"{a}->{b}")
            ch.check(same(tr.transform_quaternion(qq, b, a, s), ref.qmul(q, qq)),
                     "quaternion", lambda: f"{a}->{b}")
            gp, go = tr.transform_pose(v, qq, b, a, s)
            ch.check(np.allclose(gp, R.point(v), atol=1e-5) and same(go, ref.qmul(q, qq)), "pose",
                     lambda: f"{a}->{b}")
            ch.step(5)
        if not mov:
            ch.check(np.allclose(tr.transform_point(v, b, a), ref.Rigid(
                ref.qmat(lq[0]), lt[0]).point(v), atol=1e-5), "default time")
            ch.step()
        else:
            ch.check(not tr.can_transform(b, a, hi + 0.5), "beyond the recording")
            ch.step()
    # default time: the latest sample
    for f, (p, t, q, ts) in info.items():
        if ts is not None:
            gt, gq = tr.lookup_transform(p, f)
            ch.step()
            ch.check(np.allclose(gt, t[-1]) and same(gq, q[-1]), "latest", f"{gt} {t[-1]}")
    ch.outcome(n, parents, tuple(kinds), tkind)


def many(ch):
    """A frame of thousands of samples between others; chains of many frames."""
    rbm, w = ros()
    from rigid_body_motion.ros import Transformer

    what = ch.choose("many", ["samples", "frames in a chain", "children of one frame"], free=True)
    tkind = ch.choose("timestamps", ["float", "ns", "float, epoch"], free=True)
    if what == "samples":
        kinds = ["static", ch.choose("kind", ["moving", "discrete", "moving inverse"], free=True),
                 "static"]
        parents, grids = (0, 1, 2), [None, "many", None]
    else:
        m = ch.choose("frames", [12, 40], free=True)
        kinds = ["moving" if i % 5 == 2 else "static" for i in range(m)]
        grids = ["odd" if k == "moving" else None for k in kinds]
        parents = tuple(range(m)) if what.startswith("frames") else (0,) * m
    names, info = build(ch, rbm, kinds, parents, tkind, grids)
    start = ch.choose("constructed from", {"root": 0, "last": len(names) - 1}, free=True)
    ch.state(what, tkind, tuple(kinds), start)
    tr = Transformer.from_reference_frame(rbm.registry[names[start]])
    ch.step()
    n = sum(1 if ts is None else len(ts) for *_, ts in info.values())
    ch.check(len(filled(w).inserts) == n, "number of transforms",
             lambda: f"{len(filled(w).inserts)}, expected {n}")
    for f, (p, t, q, ts) in info.items():
        for i, s in enumerate([5.0] if ts is None else seconds(ts)):
            ch.check(tr.can_transform(p, f, s), "sample not available", lambda: f"{f} at {s}")
            gt, gq = tr.lookup_transform(p, f, s)
            ch.step(2)
            wt, wq = (t, q) if ts is None else (t[i], q[i])
            ch.check(np.allclose(gt, wt) and ref.same_quat(np.array(gq), np.array(wq), 1e-7),
                     "looked-up sample", lambda: f"{gt} {gq} {wt} {wq}")
    a, b = names[-1], names[0]
    if "discrete" not in kinds:
        lt, lq, lts = rbm.registry[a].lookup_transform(b)
        if lts is not None:
            for t, q, s in zip(lt, lq, seconds(lts)):
                gt, gq = tr.lookup_transform(b, a, s)
                ch.step()
                ch.check(np.allclose(gt, t, atol=1e-5) and same(gq, q), "lookup",
                         lambda: f"{a}->{b} at {s}: {gt} {gq}, library {t} {q}")
    ch.outcome(what, tkind, len(names))


def same(a, b):
    return ref.same_quat(np.array(a), ref.qnormed(np.array(b)), 1e-5)


def path_exact(info, mov, s):
    """Only compare where every moving frame has a sample."""
    return all(np.any(np.abs(seconds(info[f][3]) - s) < US) for f in mov)


def rel_path(info, a, b):
    def up(x):
        out = []
        while x in info:
            out.append(x)
            x = info[x][0]
        return out

    u, d = up(a), up(b)
    return [x for x in u if x not in d] + [x for x in d if x not in u]


def scenarios(tier):
    q = tier == "quick"
    return [Scenario("messages", messages), Scenario("transformer", transformer, 1 if q else 3),
            Scenario("many", many)]
