"""Timestamp matching: sampling, clipping, interpolation, event hold."""
import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import STORAGE, cmp, fresh

ASSUMPTIONS = [
    "timestamps strictly increasing; all timestamps of one query of one kind "
    "(int, float, or datetime64 of possibly different units)",
    "unit quaternions in moving frames",
    "consecutive rotations less than half a turn apart",
]

GRIDS = {
    "0..4": [0, 1, 2, 3, 4],
    "1..3": [1, 2, 3],
    "half": [0.5, 1.5, 2.5, 3.5, 4.5],
    "tail": [3, 4, 5, 6],
    "touch": [4, 5, 6],
    "before": [-3, -2, -1.5],
    "single": [2],
    "single-off": [2.25],
    "irregular": [0, 0.25, 1.75, 4],
    "pair": [0, 4],
    "wide": [-2, 0.5, 7],
    "long": list(np.arange(-8, 33) / 4),
}
BASE = np.datetime64("2020-03-01T12:00:00", "ns")


def stamp(grid, kind):
    g = np.array(grid, float)
    if kind == "float":
        return g
    if kind == "int":
        return np.round(g * 4).astype(int)
    if kind == "large float":
        return g + 1.6e9
    unit, per = {"ns": ("ns", 1000000000), "ms": ("ms", 1000), "us": ("us", 1000000)}[
        kind.split(":")[1]]
    return BASE.astype(f"datetime64[{unit}]") + np.round(g * per).astype(
        "int64").astype(f"timedelta64[{unit}]")


def unstamp(ts, kind):
    ts = np.asarray(ts)
    if kind == "float":
        return ts
    if kind == "int":
        return ts / 4
    if kind == "large float":
        return ts - 1.6e9
    return (ts.astype("datetime64[ns]") - BASE).astype("int64") / 1e9


def motion(k, g):
    g = np.asarray(g, float)
    t = np.stack((np.sin(g + k), 0.3 * g - k, 1 - 0.1 * g * g), -1)
    q = np.array([ref.axang((1, 0.3 * k - 0.5, 0.2 * x), 0.35 * x + 0.4 * k + 0.2)
                  for x in g])
    return t.reshape(-1, 3), q.reshape(-1, 4)


SIGNS = {
    "as is": lambda i: 1.0,
    "alternating": lambda i: (-1.0) ** i,
    "negative": lambda i: -1.0,
    "flip third": lambda i: -1.0 if i >= 2 else 1.0,
}

STATIC_T = np.array([0.5, -1.0, 2.0])


def make_frame(ch, rbm, k, name, parent, kind, dt):
    """Register one frame; returns (kind, grid, evaluator ts -> Rigid)."""
    if kind == "static":
        t, q = motion(k, [1.0])
        rbm.register_frame(name, parent, t[0], q[0])
        return kind, None, lambda ts: ref.Rigid.from_tq(t[0], q[0])
    gname = ch.choose(f"{name} grid", list(GRIDS))
    g = np.array(GRIDS[gname], float)
    t, q = motion(k, g)
    s = ch.choose(f"{name} signs", list(SIGNS))
    q = q * np.array([SIGNS[s](i) for i in range(len(q))])[:, None]
    rbm.register_frame(name, parent, t, q, stamp(g, dt), discrete=kind == "discrete")
    if kind == "discrete":
        ev = lambda ts: ref.Rigid(ref.qmat(ref.hold(q, g, ts)), ref.hold(t, g, ts))
    else:
        ev = lambda ts: ref.Rigid(ref.qmat(ref.squad(q, g, ts)), ref.lerp(t, g, ts))
    return kind, g, ev


def expected_ts(frames, array=None):
    """Model of the documented timestamp choice."""
    cont = [g for kind, g, _ in frames if kind == "continuous"]
    disc = [g for kind, g, _ in frames if kind == "discrete"]
    if array is None and not cont:
        return np.unique(np.concatenate(disc)) if disc else None
    base = array if array is not None else cont[0]
    lo = max(g[0] for g in cont + ([array] if array is not None else []))
    hi = min(g[-1] for g in cont + ([array] if array is not None else []))
    return base[(base >= lo) & (base <= hi)]


def build(ch, rbm, n, dt):
    """Frames f1..fn below world; returns path (query order) and query."""
    kinds = [ch.choose(f"f{k + 1}", ["continuous", "discrete", "static"], free=True)
             for k in range(n)]
    shape = ch.choose("query", ["up", "down"] + (["branch"] if n > 1 else [])
                      + (["fork"] if n > 2 else []), free=True)
    rbm.register_frame("world")
    fr = []
    for k in range(n):
        if shape == "branch":
            # f1 above world on one side, the others on the other side
            parent = "world" if k <= 1 else f"f{k}"
        elif shape == "fork":
            parent = "world" if k in (0, 2) else f"f{k}"
        else:
            parent = "world" if k == 0 else f"f{k}"
        fr.append(make_frame(ch, rbm, k, f"f{k + 1}", parent, kinds[k], dt[k]))
    if shape == "up":
        return f"f{n}", "world", [(f, False) for f in reversed(fr)], kinds
    if shape == "down":
        return "world", f"f{n}", [(f, True) for f in fr], kinds
    if shape == "branch":
        return "f1", f"f{n}", [(fr[0], False)] + [(f, True) for f in fr[1:]], kinds
    return "f2", "f3", [(fr[1], False), (fr[0], False), (fr[2], True)], kinds


def compose(path, ts):
    T = ref.Rigid()
    if ts is not None:
        n = len(ts)
        T = ref.Rigid(np.tile(np.eye(3), (n, 1, 1)), np.zeros((n, 3)))
    for (kind, g, ev), inv in path:
        E = ev(ts)
        if ts is not None and E.R.ndim == 2:
            E = ref.Rigid(np.tile(E.R, (len(ts), 1, 1)), np.tile(E.t, (len(ts), 1)))
        T = T.then(E.inv() if inv else E)
    return T


def check_ts(ch, got, want, dt):
    if want is None:
        ch.check(got is None, "timestamps", f"{got} for a static path")
        return
    ch.check(got is not None, "timestamps", f"none, expected {want}")
    ch.check(len(got) == len(want), "timestamps", cmp(unstamp(got, dt), want))
    ch.check(np.array_equal(unstamp(got, dt), want), "timestamps",
             cmp(unstamp(got, dt), want))


DT = ["float", "int", "datetime:ns", "datetime:ms", "large float"]


def stamps_kinds(ch, n):
    dt = ch.choose("timestamps", DT + ["mixed units"])
    if dt == "mixed units":
        return ["datetime:ns", "datetime:ms", "datetime:us"][:n] + ["datetime:ns"]
    return [dt] * (n + 1)


def lookup(ch, n):
    rbm = fresh()
    dt = stamps_kinds(ch, n)
    src, dst, path, kinds = build(ch, rbm, n, dt)
    ts = expected_ts([f for f, _ in path])
    ch.assume(not any(
        f[0] != "static" and dt[0] == "int" and np.any((f[1] * 4) % 1) for f, _ in path))
    ch.state(tuple(kinds), tuple(map(tuple, [p[0] for p in ch.points])),
             tuple(p[2] for p in ch.points))
    meth = ch.choose("call", ["function", "method"])
    if meth == "method":
        t, q, got_ts = rbm.registry[src].lookup_transform(dst)
    else:
        t, q, got_ts = rbm.lookup_transform(src, dst, return_timestamps=True)
    ch.step()
    check_ts(ch, got_ts, ts, dt[0])
    T = compose(path, ts)
    ch.check(np.shape(q) == T.R.shape[:-2] + (4,), "rotation shape", f"{np.shape(q)}")
    ch.check(ref.close(t, T.t, 2e-6), "translation", cmp(t, T.t))
    ch.check(ref.same_rot(q, T.R, 2e-6), "rotation",
             lambda: cmp(ref.qmat(q), T.R)())
    ch.outcome(np.round(T.t, 4).tobytes(), None if ts is None else tuple(ts))


def arrays(ch):
    rbm = fresh()
    n = ch.choose("frames", [1, 2], free=True)
    dt = stamps_kinds(ch, n)
    src, dst, path, kinds = build(ch, rbm, n, dt)
    method = ch.choose("method", ["points", "vectors", "quaternions"], free=True)
    gname = ch.choose("array grid", list(GRIDS) + ["none"], free=True)
    N = 4 if method == "quaternions" else 3
    adt = dt[n]
    ch.assume(not any(
        f[0] != "static" and dt[0] == "int" and np.any((f[1] * 4) % 1) for f, _ in path))
    if gname == "none":
        a = np.array([0.5, -0.5, 0.5, 0.5])[:N]
        ts = expected_ts([f for f, _ in path])
        kw = {}
        at = a if ts is None else np.repeat(a[None], len(ts), axis=0)
        in_ts = None
    else:
        g = np.array(GRIDS[gname], float)
        ts = expected_ts([f for f, _ in path], g)
        tt, qq = motion(5, g)
        if method == "quaternions":
            s = ch.choose("array signs", list(SIGNS))
            qq = qq * np.array([SIGNS[s](i) for i in range(len(qq))])[:, None]
            a = qq
            at = qq[np.isin(g, ts)]
        else:
            a = tt
            at = tt[np.isin(g, ts)]
        kw = dict(timestamps=stamp(g, adt))
        in_ts = g
    ch.state(tuple(kinds), gname, method, tuple(p[2] for p in ch.points))
    out, got_ts = getattr(rbm, "transform_" + method)(
        a, into=dst, outof=src, return_timestamps=True, **kw)
    ch.step()
    check_ts(ch, got_ts, ts, adt if in_ts is not None else dt[0])
    T = compose(path, ts)
    if method == "points":
        want = T.point(at)
    elif method == "vectors":
        want = T.vector(at)
    else:
        want = T.R @ ref.qmat(at)
        ch.check(np.shape(out) == want.shape[:-2] + (4,), "shape", f"{np.shape(out)}")
        ch.check(ref.same_rot(out, want, 2e-6), "quaternions", cmp(ref.qmat(out), want))
        ch.outcome(np.round(want, 4).tobytes())
        return
    ch.check(ref.close(out, want, 2e-6), method, cmp(out, want))
    ch.outcome(np.round(want, 4).tobytes())


MISS = {"none": [], "first": [0], "second": [1], "third": [2], "last": [-1], "ends": [0, -1],
        "two": [1, 2], "all but one": [0, 1, 2], "all": slice(None)}


def gaps(ch):
    """Missing (NaN) samples stay where they are."""
    rbm = fresh()
    call = ch.choose("call", ["points", "vectors", "quaternions", "lookup"], free=True)
    down = ch.flag("down", free=True)
    fmiss = ch.choose("missing in frame", list(MISS), free=True)
    part = ch.choose("missing part", ["translation", "rotation", "both"], free=True)
    g = np.array(GRIDS["0..4"], float)
    gname = amiss = None
    if call != "lookup":
        gname = ch.choose("array grid", ["0..4", "half", "1..3", "irregular", "tail"], free=True)
        amiss = ch.choose("missing in array", list(MISS), free=True)
    dt = ch.choose("timestamps", DT)
    ch.assume(dt != "int" or gname != "irregular")
    ch.assume(fmiss != "none" or part == "both")
    t, q = motion(0, g)
    signs = ch.choose("frame signs", list(SIGNS))
    q = q * np.array([SIGNS[signs](i) for i in range(len(q))])[:, None]
    if part != "rotation":
        t[MISS[fmiss]] = np.nan
    if part != "translation":
        q[MISS[fmiss]] = np.nan
    rbm.register_frame("world")
    rbm.register_frame("f", "world", t, q, stamp(g, dt))
    src, dst = ("world", "f") if down else ("f", "world")
    ch.state(call, down, fmiss, part, gname, amiss, dt, signs)
    if call == "lookup":
        gt, gq, ts = rbm.lookup_transform(src, dst, return_timestamps=True)
        check_ts(ch, ts, g, dt)
        T = ref.Rigid(ref.qmat(q), t)
        T = T.inv() if down else T
        ok = np.isfinite(T.R).all((1, 2))
        k = ok & np.isfinite(T.t).all(1)
        ch.check(ref.close(gt[k], T.t[k], 2e-6) and np.isnan(gt[~np.isfinite(T.t).all(1)]).any(-1).all(),
                 "translation", cmp(gt, T.t))
        ch.check(np.isnan(gq[~ok]).any(-1).all() and ref.same_rot(gq[ok], T.R[ok], 2e-6), "rotation",
                 cmp(gq, q))
        ch.step(len(g))
        ch.outcome(np.round(T.t, 4).tobytes())
        return
    ag = np.array(GRIDS[gname], float)
    at, aq = motion(5, ag)
    a = aq if call == "quaternions" else at
    ch.assume(len(ag) > 3 or amiss not in ("all but one",))
    a[MISS[amiss]] = np.nan
    ts = expected_ts([("continuous", g, None)], ag)
    out, got_ts = getattr(rbm, "transform_" + call)(
        a, into=dst, outof=src, timestamps=stamp(ag, dt), return_timestamps=True)
    check_ts(ch, got_ts, ts, dt)
    a = a[np.isin(ag, ts)]
    tt, R = ref.lerp(t, g, ts), ref.qmat(ref.squad(q, g, ts))
    sample = np.isin(ts, g)
    R[sample] = ref.qmat(q[np.isin(g, ts)])
    T = ref.Rigid(R, tt)
    T = T.inv() if down else T
    # between samples, the rotation next to a gap is not specified
    known = sample | np.isfinite(R).all((1, 2))
    miss = np.array([not (np.isfinite(r).all() and np.isfinite(x).all()) for r, x in zip(R, a)], bool)
    if call == "points":
        want = T.point(a)
        miss |= ~np.isfinite(tt).all(-1)
    elif call == "vectors":
        want = T.vector(a)
    else:
        want = T.R @ ref.qmat(a)
    out = np.asarray(out)
    ch.check(out.shape == a.shape, "shape", f"{out.shape}")
    ch.check(np.isnan(out[known & miss]).any(-1).all(), "value at a missing sample", cmp(out, want))
    k = known & ~miss
    if call == "quaternions":
        ch.check(ref.same_rot(out[k], want[k], 2e-6), "existing sample lost", cmp(out, a))
    else:
        ch.check(ref.close(out[k], want[k], 2e-6), "existing sample lost", cmp(out, want))
    ch.step(len(ts))
    ch.outcome(np.round(want, 4).tobytes())


def seconds(kind):
    """Timestamps of whole seconds in different types."""
    if kind.startswith("datetime"):
        unit = kind.split(":")[1]
        return lambda g: (BASE + (np.asarray(g, float) * 1e9).astype("m8[ns]")).astype(
            f"M8[{unit}]")
    if kind.startswith("days"):
        return lambda g: np.datetime64("2020-03-01", "D") + np.asarray(g, "m8[D]")
    if kind.startswith("durations"):
        unit = kind.split(":")[1]
        return lambda g: np.asarray(g, "int64").astype("m8[s]").astype(f"m8[{unit}]")
    return lambda g: np.asarray(g, kind)


STAMP_TYPES = ["float64", "float32", "float16", "int64", "int32", "int16", "uint8", "uint32",
               "uint64", "datetime:s", "datetime:us", "days", "durations:s", "durations:ns"]


def as_index(a):
    import pandas as pd

    return pd.Index(a.astype(float) if a.dtype == "float16" else a)


HELD = dict(STORAGE, list=list, tuple=tuple, index=as_index)
VALUE_TYPES = ["float64", "float32", "int64", "int16", "uint8", "list", "nested tuple"]


def typed(a, kind):
    """(argument, the same as numbers)"""
    if kind == "list":
        return a.tolist(), a
    if kind == "nested tuple":
        return tuple(map(tuple, a.tolist())), a
    if kind in ("float64", "float32"):
        b = a.astype(kind)
        return b, b.astype(float)
    b = np.round(a * 7)
    b = (b - min(b.min(), 0) if kind == "uint8" else b).astype(kind)
    return b, b.astype(float)


def storage(ch):
    """Types and memory layouts of the samples and timestamps of a frame and an array."""
    rbm = fresh()
    st = ch.choose("timestamp type", STAMP_TYPES, free=True)
    kind = ch.choose("frame", ["continuous", "discrete"], free=True)
    call = ch.choose("call", ["points", "vectors", "quaternions", "lookup"], free=True)
    down = ch.flag("down")
    second = ch.choose("second frame", ["none", "continuous", "static"])
    stamps = seconds(st)
    g = np.arange(0.0, 7.0, 2)
    t, q = motion(0, g)
    ttype = ch.choose("translation type", VALUE_TYPES)
    rtype = ch.choose("rotation type", ["float64", "float32", "list", "nested tuple"])
    t_in, t = typed(t, ttype)
    q_in, q = typed(q, rtype)
    for name in ("translation", "rotation"):
        how = ch.choose(name + " layout", STORAGE)
        if name == "translation" and isinstance(t_in, np.ndarray):
            t_in = how(t_in)
        elif name == "rotation" and isinstance(q_in, np.ndarray):
            q_in = how(q_in)
        else:
            ch.assume(how is STORAGE["C"])
    held = ch.choose("timestamps held as", HELD)
    rbm.register_frame("world")
    rbm.register_frame("f", "world", t_in, q_in, held(stamps(g)),
                       discrete=kind == "discrete")
    if kind == "discrete":
        ev = lambda ts: ref.Rigid(ref.qmat(ref.hold(q, g, ts)), ref.hold(t, g, ts))
    else:
        ev = lambda ts: ref.Rigid(ref.qmat(ref.squad(q, g, ts)), ref.lerp(t, g, ts))
    path = [((kind, g, ev), False)]
    src = "f"
    if second != "none":
        g2 = np.arange(1.0, 6.0)
        t2, q2 = motion(2, g2)
        if second == "static":
            t2, q2 = t2[0], q2[0]
            rbm.register_frame("h", "f", t2, q2)
            f2 = ("static", None, lambda ts: ref.Rigid.from_tq(t2, q2))
        else:
            rbm.register_frame("h", "f", t2, q2, stamps(g2))
            f2 = ("continuous", g2,
                  lambda ts: ref.Rigid(ref.qmat(ref.squad(q2, g2, ts)), ref.lerp(t2, g2, ts)))
        path.insert(0, (f2, False))
        src = "h"
    dst = "world"
    if down:
        src, dst = dst, src
        path = [(f, True) for f, _ in reversed(path)]
    if call == "lookup":
        ch.state(st, kind, call, tuple(p[4] for p in ch.points))
        ts = expected_ts([f for f, _ in path])
        gt, gq, got_ts = rbm.lookup_transform(src, dst, return_timestamps=True)
        T = compose(path, ts)
        ch.check(ref.close(gt, T.t, 1e-5), "translation", cmp(gt, T.t))
        ch.check(ref.same_rot(gq, T.R, 1e-5), "rotation", lambda: cmp(ref.qmat(gq), T.R)())
        want_ts = stamps(ts)
    else:
        ag = np.array(ch.choose("array grid", [[0, 1, 2, 3, 4, 5, 6], [1, 3, 4], [4, 5, 6, 7, 9]]),
                      float)
        at, aq = motion(5, ag)
        a_in, a = typed(aq if call == "quaternions" else at,
                        ch.choose("array type", VALUE_TYPES if call != "quaternions"
                                  else ["float64", "float32", "list", "nested tuple"]))
        how = ch.choose("array layout", STORAGE)
        if isinstance(a_in, np.ndarray):
            a_in = how(a_in)
        else:
            ch.assume(how is STORAGE["C"])
        aheld = ch.choose("array timestamps held as", HELD)
        ts = expected_ts([f for f, _ in path], ag)
        ch.state(st, kind, call, tuple(p[4] for p in ch.points))
        out, got_ts = getattr(rbm, "transform_" + call)(
            a_in, into=dst, outof=src, timestamps=aheld(stamps(ag)),
            return_timestamps=True)
        T = compose(path, ts)
        at = a[np.isin(ag, ts)]
        want = {"points": T.point, "vectors": T.vector}.get(
            call, lambda x: T.R @ ref.qmat(x))(at)
        if call == "quaternions":
            ch.check(np.shape(out) == at.shape, "shape", f"{np.shape(out)}")
            ch.check(ref.same_rot(out, want, 1e-5), call, cmp(ref.qmat(out), want))
        else:
            ch.check(ref.close(out, want, 1e-5), call, cmp(out, want))
        want_ts = stamps(ts)
    got_ts = np.asarray(got_ts)
    ch.check(got_ts.shape == want_ts.shape and (got_ts == want_ts).all(), "timestamps",
             cmp(got_ts, want_ts))
    ch.step(len(ts))
    ch.outcome(np.round(T.t, 4).tobytes())


BAD = {
    "reversed": [4, 3, 2, 1, 0],
    "one step back": [0, 1, 0.5, 3, 4],
    "last back": [0, 1, 2, 3, 2.5],
}


def rejected(ch):
    """Decreasing timestamps anywhere on the path or of the array."""
    rbm = fresh()
    n = ch.choose("frames", [1, 2, 3], free=True)
    bad = ch.choose("bad element", list(range(n + 1)), free=True)
    how = ch.choose("order", BAD, free=True)
    dt = ch.choose("timestamps", DT, free=True)
    disc = ch.flag("discrete", free=True)
    down = ch.flag("down", free=True)
    call = ch.choose("call", ["lookup_transform", "transform_points",
                              "transform_quaternions"], free=True)
    ch.assume(not (bad == n and call == "lookup_transform"))
    ch.state(n, bad, tuple(how), dt, disc, down, call)

    def go():
        rbm.register_frame("world")
        for k in range(n):
            g = how if k == bad else GRIDS["0..4"]
            t, q = motion(k, g)
            rbm.register_frame(f"f{k}", "world" if k == 0 else f"f{k - 1}", t, q,
                               stamp(g, dt), discrete=disc and k == bad)
        src, dst = ("world", f"f{n - 1}") if down else (f"f{n - 1}", "world")
        if call == "lookup_transform":
            return rbm.lookup_transform(src, dst)
        g = how if bad == n else GRIDS["0..4"]
        t, q = motion(7, g)
        return getattr(rbm, call)(t if call == "transform_points" else q, into=dst,
                                  outof=src, timestamps=stamp(g, dt))

    ch.raises(go, "accepted decreasing timestamps", ValueError)


def many(ch):
    """Series of more samples than any block size."""
    rbm = fresh()
    kind = ch.choose("frame", ["continuous", "discrete"], free=True)
    call = ch.choose("call", ["points", "vectors", "quaternions", "lookup"], free=True)
    n = ch.choose("samples", [257, 1000, 2049], free=True)
    every = ch.choose("array samples per sample", [1, 3, 0.4], free=True)
    down = ch.flag("down", free=True)
    ch.assume(call != "lookup" or every == 1)
    ch.state(kind, call, n, every, down)
    g = np.arange(n) / 4
    t = motion(0, g % 7)[0]
    # no jumps of more than half a turn
    q = np.array([1.0, 0.0, 0.0, 0.0]) + np.stack(
        (np.zeros(n), 0.6 * np.sin(g), 0.5 * np.cos(0.7 * g), 0.3 * np.sin(0.3 * g)), -1)
    q /= np.linalg.norm(q, axis=-1, keepdims=True)
    rbm.register_frame("world")
    rbm.register_frame("f", "world", t, q, g, discrete=kind == "discrete")
    src, dst = ("world", "f") if down else ("f", "world")
    if call == "lookup":
        a = ts = g
        gt, gq, got_ts = rbm.lookup_transform(src, dst, return_timestamps=True)
    else:
        ag = np.arange(int((g[-1] + 1) * 4 * every)) / (4 * every) - 0.3
        k = (ag >= g[0]) & (ag <= g[-1]) if kind == "continuous" else np.ones(len(ag), bool)
        at, aq = motion(5, ag % 5)
        a = aq if call == "quaternions" else at
        out, got_ts = getattr(rbm, "transform_" + call)(
            a, into=dst, outof=src, timestamps=ag, return_timestamps=True)
        ts, a = ag[k], a[k]
    if kind == "discrete":
        T = ref.Rigid(ref.qmat(ref.hold(q, g, ts)), ref.hold(t, g, ts))
    else:
        T = ref.Rigid(ref.qmat(ref.squad(q, g, ts)), ref.lerp(t, g, ts))
    T = T.inv() if down else T
    ch.step(len(ts))
    ch.check(np.array_equal(got_ts, ts), "timestamps", cmp(got_ts, ts))
    if call == "lookup":
        ch.check(ref.close(gt, T.t, 1e-6), "translation", cmp(gt, T.t))
        ch.check(ref.same_rot(gq, T.R, 1e-6), "rotation", lambda: cmp(ref.qmat(gq), T.R)())
    elif call == "quaternions":
        ch.check(ref.same_rot(out, T.R @ ref.qmat(a), 1e-6), call, cmp(out, a))
    else:
        want = T.point(a) if call == "points" else T.vector(a)
        ch.check(ref.close(out, want, 1e-6), call, cmp(out, want))
    ch.outcome(np.round(T.t, 4).tobytes())


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("lookup-1", lambda ch: lookup(ch, 1), None),
        Scenario("lookup-2", lambda ch: lookup(ch, 2), 3 if q else None),
        Scenario("lookup-3", lambda ch: lookup(ch, 3), 2 if q else 3),
        Scenario("arrays", arrays, 1 if q else 3),
        Scenario("gaps", gaps, 0 if q else 2),
        Scenario("rejected", rejected, None),
        Scenario("many samples", many, None),
        Scenario("storage", storage, 1 if q else 2),
    ]
