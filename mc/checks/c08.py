"""Velocity transforms obey the documented change-of-frame formulas."""
import numpy as np

from mc import ref
from mc.checks import c07
from mc.checks.c07 import (BASE, DT, NO, OPTIONS, Edge, expected, rough_rel,
                           rough_tree)
from mc.explore import Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = [
    "continuous frames with constant velocity and constant body rate, or "
    "static frames; analytic ground truth",
    "numerical differentiation error of the looked-up velocities: second "
    "order in the sampling interval, first order at the two ends",
    "velocity arrays without timestamps are single vectors",
]

N = 24
FRAMES = ["world", "a", "s", "b"]
PARENT = {"a": "world", "s": "a", "b": "world"}


def up(x):
    out = []
    while x != "world":
        out.append(x)
        x = PARENT[x]
    return out


def path(f, g):
    a, b = up(f), up(g)
    return [x for x in a if x not in b] + [x for x in b if x not in a][::-1]


def to_root(edges, f, ts):
    n = len(ts)
    T = ref.Rigid(np.tile(np.eye(3), (n, 1, 1)), np.zeros((n, 3)))
    while f != "world":
        T = T.then(edges[f].rigid(ts))
        f = PARENT[f]
    return T


def rel(edges, f, g, ts):
    return to_root(edges, f, ts).then(to_root(edges, g, ts).inv())


def true_velocity(edges, frame, reference, ts):
    h = 1e-3
    P = [rel(edges, frame, reference, ts + k * h) for k in (-2, -1, 1, 2)]
    d = lambda f: (f(P[0]) - 8 * f(P[1]) + 8 * f(P[2]) - f(P[3])) / (12 * h)
    v = d(lambda x: x.t)
    R = rel(edges, frame, reference, ts).R
    W = d(lambda x: x.R) @ np.swapaxes(R, -1, -2)
    return v, np.stack((W[:, 2, 1] - W[:, 1, 2], W[:, 0, 2] - W[:, 2, 0],
                        W[:, 1, 0] - W[:, 0, 1]), -1) / 2


GRID = DT * np.arange(N)
ARRAY_GRIDS = {
    "inner, between samples": DT * (np.arange(10) + 4.3),
    "same": GRID,
    "wider": DT * (np.arange(N + 8) - 4),
    "none": None,
}
LAYOUTS = {
    "(t, 3)": ((), 0, -1),
    "(t, 2, 3)": ((2,), 0, -1),
    "(3, t)": ((), 1, 0),
    "(2, 3, t)": ((2,), 2, 1),
    "(3, 2, t)": ((2,), -1, 0),
    "(t, 3, 2)": ((2,), 0, 1),
    "(t, 2, 2, 3)": ((2, 2), 0, -1),
}
KINDS = ["moving", "static", "rotating", "translating", "identity"]


def stamp(g, kind):
    if kind == "float":
        return g
    return BASE + np.round(g * 1e9).astype("int64").astype("timedelta64[ns]")


def unstamp(ts, kind):
    return np.asarray(ts) if kind == "float" else (
        np.asarray(ts).astype("datetime64[ns]") - BASE).astype("int64") / 1e9


def data(shape_mid, g):
    """Velocities (t, mid..., 3) or (3,)."""
    n = 1 if g is None else len(g)
    x = np.arange(n, dtype=float).reshape((n,) + (1,) * (len(shape_mid) + 1))
    m = np.arange(np.prod(shape_mid + (3,)), dtype=float).reshape(
        (1,) + shape_mid + (3,))
    v = 0.4 + 0.3 * np.cos(m) + 0.5 * np.sin(0.3 * x + m)
    return v[0] if g is None else v


def transform_long(ch):
    global N, GRID, ARRAY_GRIDS
    keep = N, GRID, ARRAY_GRIDS
    N = ch.choose("samples", [300, 1100], free=True)
    GRID = DT * np.arange(N)
    ARRAY_GRIDS = {"inner, between samples": DT * (np.arange(N - 14) + 4.3), "same": GRID,
                   "few": DT * (np.arange(10) + 200.3), "none": None}
    try:
        transform(ch)
    finally:
        N, GRID, ARRAY_GRIDS = keep


def transform(ch):
    rbm = fresh()
    kind = ch.choose("velocity", ["linear", "angular"], free=True)
    what = ch.choose("what", ["reference_frame", "moving_frame",
                              "representation_frame"], free=True)
    src = ch.choose("from", ["a", "s", "b", "world"], free=True)
    dst = ch.choose("to", ["b", "world", "a", "s"], free=True)
    third = None
    if kind == "linear" and what != "representation_frame":
        third = ch.choose("third frame", ["s", "world", "a", "b"], free=True)
    kinds = {"a": ch.choose("edge a", KINDS),
             "s": ch.choose("edge s", ["static", "moving", "identity"]),
             "b": ch.choose("edge b", KINDS)}
    entry = ch.choose("entry", ["function", "method", "dataarray",
                                "dataarray with attrs"])
    by_obj = ch.flag("frames as objects")
    grid = ch.choose("array timestamps", list(ARRAY_GRIDS))
    layout = ch.choose("layout", list(LAYOUTS))
    tkind = ch.choose("timestamps", ["float", "ns"])
    swap = ch.flag("there and back")
    edges = {f: Edge(k, kinds[f]) for k, f in enumerate(("a", "s", "b"))}
    rbm.register_frame("world")
    for k, f in enumerate(("a", "s", "b")):
        e = edges[f]
        if e.moving:
            t, q = e.tq(GRID)
            rbm.register_frame(f, PARENT[f], t, q, stamp(GRID, tkind))
        else:
            rbm.register_frame(f, PARENT[f], *e.tq(0.0))
    g = ARRAY_GRIDS[grid]
    mid, time_axis, axis = LAYOUTS[layout]
    if g is None:
        ch.assume(layout == "(t, 3)" and not entry.startswith("data"))
    v = data(mid, g)
    ch.state(kind, what, src, dst, third, tuple(kinds.items()), entry, by_obj, grid,
             layout, tkind, swap)

    def layout_of(x):
        if g is None:
            return x
        x = np.moveaxis(x, 0, time_axis) if axis == -1 or time_axis in (0,) else x
        return x

    # build array: order axes so that time is at time_axis and space at axis
    def to_layout(x):
        nd = x.ndim
        if g is None:
            return x
        ta, sa = time_axis % nd, axis % nd
        others = [i for i in range(nd) if i not in (ta, sa)]
        perm = [None] * nd
        perm[ta], perm[sa] = 0, nd - 1
        for j, i in enumerate(others):
            perm[i] = 1 + j
        return np.transpose(x, perm)

    def from_layout(x):
        nd = x.ndim
        ta, sa = time_axis % nd, axis % nd
        others = [i for i in range(nd) if i not in (ta, sa)]
        return np.transpose(x, [ta] + others + [sa])

    nm = (lambda x: rbm.registry[x]) if by_obj else (lambda x: x)

    def call(v, g, src, dst, g_untimed=False):
        """Velocities (t, ..., 3) in and out."""
        kw = {"what": what}
        if third is not None:
            kw["moving_frame" if what == "reference_frame" else "reference_frame"] = nm(third)
        fn = f"transform_{kind}_velocity"
        ts = None if g is None else stamp(g, tkind)
        x = to_layout(v)
        if entry == "function":
            if axis != -1:
                kw["axis"] = axis
            if time_axis != 0:
                kw["time_axis"] = time_axis
            r, rts = getattr(rbm, fn)(x, nm(dst), nm(src), timestamps=ts,
                                      return_timestamps=True, **kw)
        elif entry == "method":
            if axis != -1:
                kw["axis"] = axis
            if time_axis != 0:
                kw["time_axis"] = time_axis
            r, rts = getattr(rbm.registry[src], fn)(x, nm(dst), timestamps=ts,
                                                    return_timestamps=True, **kw)
        else:
            import xarray as xr
            nd = x.ndim
            dims = [f"d{i}" for i in range(nd)]
            dims[time_axis % nd] = "time"
            dims[axis % nd] = "xyz"
            da = xr.DataArray(x, {"time": ts, "xyz": ["x", "y", "z"]}, dims)
            if entry.endswith("attrs"):
                da.attrs[what] = src
                r = getattr(rbm, fn)(da, nm(dst), dim="xyz", timestamps="time", **kw)
            else:
                r = getattr(rbm, fn)(da, nm(dst), nm(src), dim="xyz", timestamps="time", **kw)
            ch.check(isinstance(r, xr.DataArray) and r.dims == tuple(dims), "dims", f"{r}")
            rts = r["time"].values
            if "representation_frame" not in da.attrs or True:
                ch.check(r.attrs.get("representation_frame") == dst
                         and r.attrs.get(what) == dst, "attrs", f"{r.attrs}")
            r = r.values
        ch.step()
        return r, rts

    r, rts = call(v, g, src, dst)

    # frames involved
    p_main = path(src, dst)
    paths = [p_main]
    if third is not None:
        if what == "reference_frame":
            paths.append(path(third, src))
        else:
            paths += [path(src, third)]
    moving = [f for p in paths for f in p if edges[f].moving]
    if g is None and not moving:
        ts = None
        ch.check(rts is None and np.shape(r) == (3,), "static shape", f"{np.shape(r)} {rts}")
        tt = np.zeros(1)
    else:
        ts = GRID if g is None else g
        if moving:
            ts = ts[(ts >= GRID[0] - 1e-9) & (ts <= GRID[-1] + 1e-9)]
        ch.check(rts is not None and len(rts) == len(ts)
                 and np.allclose(unstamp(rts, tkind), ts, atol=1e-8),
                 "timestamps", lambda: f"{unstamp(rts, tkind)} {ts}")
        tt = ts
    vin = v
    if g is not None and ts is not None and len(ts) != len(g):
        vin = v[np.isin(np.round(g, 9), np.round(ts, 9))]
    if ts is not None and g is not None:
        got = from_layout(np.asarray(r))
    else:
        got = np.asarray(r)[None] if ts is None else np.asarray(r)
    if g is None:
        vin = np.broadcast_to(v, (len(tt), 3))
    got = np.asarray(got)
    Rm = rel(edges, src, dst, tt).R
    add = np.zeros((len(tt), 3))
    if what == "reference_frame":
        v_rr, w_rr = true_velocity(edges, src, dst, tt)  # in dst coordinates
        if kind == "angular":
            add = w_rr
        else:
            t_mr = rel(edges, third, src, tt).t
            t_mr = np.einsum("nij,nj->ni", Rm, t_mr)
            add = v_rr + np.cross(w_rr, t_mr)
    elif what == "moving_frame":
        v_mm, w_mm = true_velocity(edges, dst, src, tt)  # in src coordinates
        if kind == "angular":
            add = np.einsum("nij,nj->ni", Rm, w_mm)
        else:
            _, w_mr = true_velocity(edges, src, third, tt)  # in third coords
            w_mr = np.einsum("nij,nj->ni", rel(edges, third, dst, tt).R, w_mr)
            t = np.einsum("nij,nj->ni", Rm, rel(edges, dst, src, tt).t)
            add = np.einsum("nij,nj->ni", Rm, v_mm) + np.cross(w_mr, t)
    want = np.einsum("nij,n...j->n...i", Rm, vin)
    want = want + add.reshape((len(tt),) + (1,) * (want.ndim - 2) + (3,))
    ch.check(got.shape == want.shape, "shape", lambda: f"{got.shape} {want.shape}")
    # numerical differentiation error of the relative position
    rotating = any(np.any(edges[f].w) for p in paths for f in p)
    ends = (tt < GRID[0] + 1.5 * DT) | (tt > GRID[-1] - 1.5 * DT)
    exact = 3e-6 if not moving or what == "representation_frame" else 3e-5
    if kind == "linear" and rotating and moving and what != "representation_frame":
        lim = np.where(ends, 0.15, 6e-3)
    elif kind == "angular" and rotating and what != "representation_frame":
        lim = np.where(ends, 5e-4, 2e-4)
    else:
        lim = np.full(len(tt), exact)
    lim = lim.reshape((-1,) + (1,) * (want.ndim - 1))
    err = np.abs(got - want)
    ch.check(np.all(err <= lim), "values",
             lambda: cmp(got, want)() + f"\nerror {err.max()}")
    ch.outcome(np.round(want, 3).tobytes())
    if swap and (ts is not None) == (g is not None):
        if what == "moving_frame" and kind == "linear":
            pass
        r2, _ = call(got if g is not None else got[0], None if g is None else ts, dst, src)
        got2 = np.asarray(r2)
        if g is not None:
            got2 = from_layout(got2)
        else:
            got2 = got2[None]
        if len(got2) == len(vin):
            e2 = np.abs(got2 - vin)
            ch.check(np.all(e2 <= 2.5 * lim), "there and back",
                     lambda: cmp(got2, vin)() + f"\nerror {e2.max()}")


def rejected(ch):
    rbm = fresh()
    rbm.register_frame("world")
    e = Edge(0, "moving")
    t, q = e.tq(GRID)
    rbm.register_frame("a", "world", t, q, GRID)
    rbm.register_frame("b", "world", (1.0, 0, 0))
    fn = ch.choose("call", ["transform_linear_velocity", "transform_angular_velocity"])
    what = ch.choose("what", ["reference_frame", "moving_frame", "representation_frame",
                              "bogus", "representation"])
    bad = ch.choose("bad", ["shape", "timestamps", "untimed", "frame", "what"])
    entry = ch.choose("entry", ["function", "method"])
    ch.assume((what in ("bogus", "representation")) == (bad == "what"))
    v, ts, to, src = np.ones((N, 3)), GRID, "world", "a"
    if bad == "shape":
        v = np.ones((N, 4))
    elif bad == "timestamps":
        ts = GRID[:-2]
    elif bad == "untimed":
        ts = None
    elif bad == "frame":
        to = "nowhere"
    kw = {"what": what}
    if "linear" in fn and what == "reference_frame":
        kw["moving_frame"] = "b"
    elif "linear" in fn and what == "moving_frame":
        kw["reference_frame"] = "b"
    ch.state(fn, what, bad, entry)
    if entry == "function":
        ch.raises(lambda: getattr(rbm, fn)(v, to, src, timestamps=ts, **kw), f"{bad} accepted")
    else:
        ch.raises(lambda: getattr(rbm.registry[src], fn)(v, to, timestamps=ts, **kw),
                  f"{bad} accepted")


def options(ch):
    """Outlier threshold and cutoff apply to the velocities that are added."""
    rbm = fresh()
    parent = {"a": "world", "m": "a"}
    kind = ch.choose("velocity", ["linear", "angular"], free=True)
    what = ch.choose("what", ["reference_frame", "moving_frame"], free=True)
    kinds, edges = rough_tree(ch, rbm, parent)
    src = ch.choose("from", ["m", "a", "world"], free=True)
    dst = ch.choose("to", ["world", "a", "m"], free=True)
    kw = dict(what=what, cutoff=ch.choose("cutoff", OPTIONS["cutoff"], free=True))
    third, thr = None, None
    if kind == "linear":
        third = ch.choose("third frame", ["m", "a", "world"], free=True)
        thr = kw["outlier_thresh"] = ch.choose("outlier_thresh", OPTIONS["outlier_thresh"],
                                               free=True)
        kw["moving_frame" if what == "reference_frame" else "reference_frame"] = third
    entry = ch.choose("entry", ["function", "method"], free=True)
    ch.assume(any(edges[f].moving for f in c07.path(src, dst)))
    ch.state(kind, what, tuple(kinds.items()), src, dst, third, thr, kw["cutoff"], entry)
    ts = DT * np.arange(NO)
    arr = data((), ts)
    if entry == "function":
        r = getattr(rbm, f"transform_{kind}_velocity")(arr, dst, src, timestamps=ts, **kw)
    else:
        r = getattr(rbm.registry[src], f"transform_{kind}_velocity")(
            arr, dst, timestamps=ts, **kw)
    ch.step()

    def velocity(frame, reference):
        """In ``dst`` coordinates; static frames have no velocity."""
        if not any(edges[f].moving for f in c07.path(frame, reference)):
            return np.zeros((NO, 3)), np.zeros((NO, 3))
        return expected(rbm, edges, parent, frame, reference, dst, thr, kw["cutoff"],
                        "quaternion")

    def rotate(f, v):
        return np.einsum("nij,nj->ni", rough_rel(edges, parent, f, dst).R, v)

    if what == "reference_frame":
        v, w = velocity(src, dst)
        t = None if third is None else rotate(src, rough_rel(edges, parent, third, src).t)
    else:
        v, w = velocity(dst, src)
        if third is not None:
            w = velocity(src, third)[1]
            t = rotate(src, rough_rel(edges, parent, dst, src).t)
    add = w if kind == "angular" else v + np.cross(w, t)
    want = rotate(src, arr) + add
    ch.check(np.shape(r) == want.shape and np.allclose(r, want, 1e-5, 1e-5), "values",
             cmp(r, want))
    ch.outcome(np.round(want, 3).tobytes())


def scenarios(tier):
    q = tier == "quick"
    return [Scenario("transform", transform, 1 if q else 2),
            Scenario("options", options), Scenario("rejected", rejected),
            Scenario("long series", transform_long, 0 if q else 1)]
