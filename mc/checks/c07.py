"""Velocity lookups report the relative motion of the frames."""
import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = [
    "continuous frames with constant velocity and constant body rate, at "
    "least ten samples",
    "mode='rotation_vector' only for relative rotations about one fixed axis",
    "numerical differentiation error: second order in the sampling interval "
    "for positions, first order at the two ends",
]

N = 24
DT = 0.01
BASE = np.datetime64("2021-05-01T10:00:00", "ns")


class Edge:
    """Pose of a frame wrt its parent as an analytic function of time."""

    def __init__(self, k, kind):
        self.kind = kind
        self.moving = kind not in ("static", "identity")
        self.t0 = np.array([0.5 + k, -1.0, 0.3 * k])
        self.q0 = ref.axang((1, 0.5 * k, -1), 0.7 + 0.4 * k)
        self.v = np.zeros(3)
        self.w = np.zeros(3)
        if kind in ("translating", "moving"):
            self.v = np.array([1.0 - 0.4 * k, 0.5, -0.3 * k])
        if kind in ("rotating", "moving"):
            self.w = np.array([0.3, 0.8 - 0.3 * k, -0.5])
        if kind == "spinning z":
            self.w = np.array([0.0, 0.0, 1.2])
            self.q0 = ref.axang((0, 0, 1), 0.3)
        if kind == "identity":
            self.t0 = np.zeros(3)
            self.q0 = np.array([1.0, 0, 0, 0])

    def tq(self, ts):
        ts = np.asarray(ts, float)
        t = self.t0 + ts[..., None] * self.v
        n = np.linalg.norm(self.w)
        d = ref.axang(self.w / n, n * ts) if n > 0 else np.array([1.0, 0, 0, 0])
        return t, ref.qmul(np.broadcast_to(self.q0, ts.shape + (4,)),
                           np.broadcast_to(d, ts.shape + (4,)))

    def rigid(self, ts):
        t, q = self.tq(ts)
        return ref.Rigid(ref.qmat(q), t)


FRAMES = ["world", "a", "m", "b"]
PARENT = {"a": "world", "m": "a", "b": "world"}


def to_root(edges, f, ts):
    n = len(ts)
    T = ref.Rigid(np.tile(np.eye(3), (n, 1, 1)), np.zeros((n, 3)))
    while f != "world":
        T = T.then(edges[f].rigid(ts))
        f = PARENT[f]
    return T


def rel(edges, f, g, ts):
    return to_root(edges, f, ts).then(to_root(edges, g, ts).inv())


def path(f, g):
    def up(x):
        out = []
        while x != "world":
            out.append(x)
            x = PARENT[x]
        return out

    a, b = up(f), up(g)
    return [x for x in a if x not in b] + [x for x in b if x not in a][::-1]


def true_velocity(edges, frame, reference, ts):
    """Linear and angular velocity in reference coordinates (4th order)."""
    h = 1e-3
    P = [rel(edges, frame, reference, ts + k * h) for k in (-2, -1, 1, 2)]
    d = lambda f: (f(P[0]) - 8 * f(P[1]) + 8 * f(P[2]) - f(P[3])) / (12 * h)
    v = d(lambda x: x.t)
    dR = d(lambda x: x.R)
    R = rel(edges, frame, reference, ts).R
    W = dR @ np.swapaxes(R, -1, -2)
    w = np.stack((W[:, 2, 1] - W[:, 1, 2], W[:, 0, 2] - W[:, 2, 0],
                  W[:, 1, 0] - W[:, 0, 1]), -1) / 2
    return v, w


SPACING = {
    "uniform": lambda k: DT * np.arange(N),
    "offset grids": lambda k: DT * (np.arange(N) + 0.4 * k),
    "different rates": lambda k: DT * (1 + 0.25 * k) * np.arange(N),
    "irregular": lambda k: np.round(DT * (np.arange(N) + 0.2 * np.sin(np.arange(N))), 6),
    "shifted": lambda k: DT * (np.arange(N) + 4 * k),
    "negative times": lambda k: DT * (np.arange(N) - N),
}


def stamp(g, kind):
    if kind == "float":
        return g
    if kind == "int":
        # seconds, motion slowed down below
        return np.round(g / DT).astype(int)
    unit, per = {"ns": 10**9, "ms": 10**3, "us": 10**6}[kind], None
    unit = {"ns": "ns", "ms": "ms", "us": "us"}[kind]
    per = {"ns": 10**9, "ms": 10**3, "us": 10**6}[kind]
    return BASE.astype(f"datetime64[{unit}]") + np.round(g * per).astype(
        "int64").astype(f"timedelta64[{unit}]")


def unstamp(ts, kind):
    ts = np.asarray(ts)
    if kind == "float":
        return ts
    if kind == "int":
        return ts * DT
    return (ts.astype("datetime64[ns]") - BASE).astype("int64") / 1e9


SIGNS = {
    "as is": lambda i: 1.0,
    "alternating": lambda i: (-1.0) ** i,
    "negative": lambda i: -1.0,
    "flip": lambda i: -1.0 if i >= 7 else 1.0,
    # quaternions of any other norm denote the same rotations
    "doubled": lambda i: 2.0,
}
KINDS = ["moving", "static", "rotating", "translating", "identity", "spinning z"]


def build(ch, rbm, edges, tkind, spacing):
    rbm.register_frame("world")
    grids = {}
    for k, f in enumerate(("a", "m", "b")):
        e = edges[f]
        p = PARENT[f]
        if e.moving:
            g = SPACING[spacing](k)
            t, q = e.tq(g)
            s = ch.choose(f"signs of {f}", list(SIGNS))
            q = q * np.array([SIGNS[s](i) for i in range(len(q))])[:, None]
            inverse = ch.flag(f"{f} given inverse")
            if inverse:
                R = ref.Rigid(ref.qmat(q), t).inv()
                t, q = R.t, ref.qinv(q)
            grids[f] = g
            # interpolating the inverse of a moving pose is not exact between
            # samples, so only use it on common grids
            if inverse and spacing in ("offset grids", "different rates"):
                ch.assume(False)
            rbm.register_frame(f, p, t, q, stamp(g, tkind), inverse=inverse)
        else:
            t, q = e.tq(0.0)
            rbm.register_frame(f, p, t, q)
    return grids


def rotation_vector(ch):
    """One edge turning about a fixed axis, everything else at rest."""
    turning = ch.choose("turning edge", ["m", "a", "b"], free=True)
    kinds = {f: "spinning z" if f == turning
             else ch.choose(f"edge {f}", ["identity", "static"], free=True)
             for f in ("m", "a", "b")}
    lookup(ch, refs=(None, "world", "b"), reps=(None, "world", "m"),
           mode="rotation_vector", kinds=kinds,
           call=ch.choose("call", ["lookup_angular_velocity", "lookup_twist"], free=True),
           spacing=ch.choose("spacing", list(SPACING), free=True))


def lookup_few(ch):
    lookup(ch, ["m", "a"], [None, "b", "world"], [None, "b", "m"])


def lookup_long(ch):
    global N
    keep, N = N, ch.choose("samples", [300, 1100], free=True)
    try:
        lookup(ch, ["m", "a"], [None, "b"], [None, "b", "m"])
    finally:
        N = keep


def lookup(ch, fr=("m", "a", "b", "world"), refs=(None,) + tuple(FRAMES),
           reps=(None,) + tuple(FRAMES), call=None, kinds=None, spacing=None, mode=None):
    rbm = fresh()
    call = call or ch.choose("call", ["lookup_twist", "lookup_linear_velocity",
                              "lookup_angular_velocity"], free=True)
    frame = ch.choose("frame", list(fr), free=True)
    reference = ch.choose("reference", list(refs), free=True)
    represent = ch.choose("represent_in", list(reps), free=True)
    kinds = kinds or {f: ch.choose(f"edge {f}", KINDS) for f in ("m", "a", "b")}
    entry = ch.choose("entry", ["function", "method"])
    tkind = ch.choose("timestamps", ["float", "ns", "ms", "us", "int"])
    spacing = spacing or ch.choose("spacing", list(SPACING))
    mode = mode or ch.choose("mode", ["quaternion", "rotation_vector"])
    ch.assume(not (mode == "rotation_vector" and call == "lookup_linear_velocity"))
    ch.assume(not (tkind in ("ms", "int") and spacing != "uniform" and spacing != "shifted"
                   and spacing != "negative times"))
    edges = {f: Edge(k, kinds[f]) for k, f in enumerate(("a", "m", "b"))}
    grids = build(ch, rbm, edges, tkind, spacing)
    ch.assume(not (frame == "world" and reference is None))
    ref_f = reference or PARENT[frame]
    if entry == "function":
        rep_f = represent or ref_f
    elif represent is None and frame == "world":
        ch.assume(False)
    else:
        rep_f = represent or PARENT[frame]
    ch.state(call, frame, reference, represent, tuple(kinds.items()), entry, tkind,
             spacing, mode)
    kw = {}
    if mode != "quaternion":
        kw["mode"] = mode
    as_obj = ch.flag("frames as objects")
    nm = (lambda x: None if x is None else rbm.registry[x]) if as_obj else (lambda x: x)

    def go(**extra):
        if entry == "function":
            return getattr(rbm, call)(nm(frame), nm(reference), nm(represent), **kw, **extra)
        return getattr(rbm.registry[frame], call)(nm(reference), nm(represent), **kw, **extra)

    motion_path = path(frame, ref_f)
    moving = [f for f in motion_path if edges[f].moving]
    if not moving:
        ch.raises(lambda: go(return_timestamps=True), "static pair accepted", ValueError)
        if entry == "method":
            r = go(return_timestamps=True, allow_static=True)
            ch.step()
            ch.check(r[-1] is None and all(np.array_equal(x, np.zeros(3)) for x in r[:-1]),
                     "static pair, allowed", f"{r}")
        return
    if mode == "rotation_vector":
        ch.assume(all(edges[f].kind in ("spinning z", "identity", "translating")
                      for f in motion_path) and len(moving) == 1)
        ch.assume(not any(edges[f].kind == "translating" for f in motion_path))

    # expected timestamps: those of the relative pose, clipped by the
    # representation transforms of the parts
    def clip(ts, p):
        for f in p:
            if f in grids:
                ts = ts[(ts >= grids[f][0] - 1e-9) & (ts <= grids[f][-1] + 1e-9)]
        return ts

    ts = clip(clip(grids[moving[0]], motion_path), motion_path)
    ts_lin = clip(ts, path(ref_f, rep_f))
    ts_ang = clip(ts, path(frame, rep_f))
    if call == "lookup_linear_velocity":
        ts_out = ts_lin
    elif call == "lookup_angular_velocity":
        ts_out = ts_ang
    else:
        ts_out = clip(ts_ang, path(ref_f, rep_f))
    ch.assume(len(ts) >= 6 and len(ts_out) >= 3)
    res = go(return_timestamps=True)
    ch.step()
    if call == "lookup_twist":
        lin, ang, got_ts = res
    elif call == "lookup_linear_velocity":
        (lin, got_ts), ang = res, None
    else:
        (ang, got_ts), lin = res, None
    ch.check(got_ts is not None and len(got_ts) == len(ts_out)
             and np.allclose(unstamp(got_ts, tkind), ts_out, atol=1e-8),
             "timestamps", lambda: f"{unstamp(got_ts, tkind)} != {ts_out}")
    v, w = true_velocity(edges, frame, ref_f, ts_out)
    if tkind == "int":
        v, w = v * DT, w * DT
    R = rel(edges, ref_f, rep_f, ts_out).R
    v = np.einsum("nij,nj->ni", R, v)
    w = np.einsum("nij,nj->ni", R, w)
    rotating = any(np.any(edges[f].w) for f in motion_path)
    # interpolating a nonlinear path (inverse edges, frames between samples)
    ends = np.isin(np.round(ts_out, 9), np.round([ts[0], ts[-1]], 9))
    scale = DT if tkind == "int" else 1.0
    rt = 1e-4 if tkind in ("ns", "ms", "us") else 0.0
    if lin is not None:
        tol = np.where(ends, 0.12 if rotating else 1e-6, 4e-3 if rotating else 1e-6)
        err = np.linalg.norm(np.asarray(lin) - v, axis=-1) / scale
        lim = tol + 3 * rt + 1e-3 * (spacing in ("offset grids", "different rates")) * rotating
        if spacing in ("offset grids", "different rates", "irregular") and rotating:
            lim = lim + 0.05
        # accelerations grow with the distance travelled
        lim = lim * max(1, N * DT)
        ch.check(np.shape(lin) == v.shape and np.all(err <= lim), "linear velocity",
                 lambda: cmp(lin, v)() + f"\nerror {err}\nlimit {lim}")
    if ang is not None:
        err = np.linalg.norm(np.asarray(ang) - w, axis=-1) / scale
        lim = 2e-5 + 3 * rt + (1e-3 if mode == "rotation_vector" else 0)
        if spacing in ("offset grids", "different rates", "irregular"):
            lim = lim + 1e-4
        ch.check(np.shape(ang) == w.shape and np.all(err <= lim), "angular velocity",
                 lambda: cmp(ang, w)() + f"\nerror {err} limit {lim}")
    ch.outcome(np.round(v, 3).tobytes(), np.round(w, 3).tobytes())


NO = 60
PULSE = 25


class Rough:
    """Pose of a frame on a grid of NO samples, with noise and an outlier."""

    def __init__(self, k, kind):
        self.moving = kind != "static"
        n = NO if self.moving else 1
        i = np.arange(n)
        t = np.array([0.5 + k, -1.0, 0.3 * k]) + np.outer(0.05 * i, (1.0 - 0.4 * k, 0.5, -0.3))
        a = 0.4 + 0.3 * k + 0.02 * i
        if kind in ("zigzag", "both"):
            t = t + np.outer((-1.0) ** i, (0.02, -0.03, 0.01 + 0.01 * k))
            a = a + 0.01 * (-1.0) ** i
        if kind in ("outlier", "both"):
            t = t + 3.0 * (i == PULSE + k)[:, None]
            a = a + 1.0 * (i == PULSE + k)
        self.t = t
        self.q = ref.axang((1, 0.5 * k, -1), a)
        self.R = ref.qmat(self.q)

    def rigid(self):
        return ref.Rigid(self.R, self.t)


def rough_rel(edges, parent, f, g):
    """Relative pose of every sample."""
    def root(f):
        T = ref.Rigid(np.tile(np.eye(3), (NO, 1, 1)), np.zeros((NO, 3)))
        while f != "world":
            e = edges[f].rigid()
            T = T.then(ref.Rigid(np.broadcast_to(e.R, (NO, 3, 3)),
                                 np.broadcast_to(e.t, (NO, 3))))
            f = parent[f]
        return T

    return root(f).then(root(g).inv())


def quats(R):
    from scipy.spatial.transform import Rotation

    return np.roll(Rotation.from_matrix(R).as_quat(), 1, axis=-1)


OPTIONS = {"outlier_thresh": [None, 0.5, 1e9], "cutoff": [None, 0.25, 0.6]}


def expected(rbm, edges, parent, frame, reference, rep, thr, cutoff, mode, ang_thr=None):
    """Estimates from the relative poses, with the same options."""
    P = rough_rel(edges, parent, frame, reference)
    ts = DT * np.arange(NO)
    v = rbm.estimate_linear_velocity(P.t, timestamps=ts, outlier_thresh=thr, cutoff=cutoff)
    w = rbm.estimate_angular_velocity(quats(P.R), timestamps=ts, cutoff=cutoff, mode=mode,
                                      outlier_thresh=ang_thr)
    v = np.einsum("nij,nj->ni", rough_rel(edges, parent, reference, rep).R, v)
    w = np.einsum("nij,nj->ni", rough_rel(edges, parent, frame, rep).R, w)
    return v, w


def rough_tree(ch, rbm, parent):
    kinds = {f: ch.choose(f"edge {f}", ["both", "static", "outlier"], free=True)
             for f in parent}
    edges = {f: Rough(k, kinds[f]) for k, f in enumerate(parent)}
    rbm.register_frame("world")
    for f, e in edges.items():
        rbm.register_frame(f, parent[f], e.t if e.moving else e.t[0],
                           e.q if e.moving else e.q[0],
                           DT * np.arange(NO) if e.moving else None)
    return kinds, edges


def options(ch):
    """Outlier threshold, cutoff and mode are those of the estimators."""
    rbm = fresh()
    call = ch.choose("call", ["lookup_twist", "lookup_linear_velocity",
                              "lookup_angular_velocity"], free=True)
    kinds, edges = rough_tree(ch, rbm, {"a": "world", "m": "a"})
    frame = ch.choose("frame", ["m", "a", "world"], free=True)
    reference = ch.choose("reference", ["world", "a", "m"], free=True)
    rep = ch.choose("represent_in", ["world", "m"], free=True)
    thr = ch.choose("outlier_thresh", OPTIONS["outlier_thresh"], free=True)
    cutoff = ch.choose("cutoff", OPTIONS["cutoff"], free=True)
    mode = "quaternion"
    kw = dict(outlier_thresh=thr, cutoff=cutoff)
    if call != "lookup_linear_velocity":
        mode = kw["mode"] = ch.choose("mode", ["quaternion", "rotation_vector"])
    entry = ch.choose("entry", ["function", "method"], free=True)
    ch.assume(any(edges[f].moving for f in path(frame, reference)))
    ang_thr = thr if call == "lookup_angular_velocity" else None
    ch.state(call, tuple(kinds.items()), frame, reference, rep, thr, cutoff, mode, entry)
    if entry == "function":
        r = getattr(rbm, call)(frame, reference, rep, return_timestamps=True, **kw)
    else:
        r = getattr(rbm.registry[frame], call)(reference, rep, return_timestamps=True, **kw)
    ch.step()
    want_v, want_w = expected(rbm, edges, {"a": "world", "m": "a"}, frame, reference, rep, thr,
                              cutoff, mode, ang_thr)
    if call != "lookup_angular_velocity":
        ch.check(np.shape(r[0]) == want_v.shape and np.allclose(r[0], want_v, 1e-6, 1e-6),
                 "linear velocity", cmp(r[0], want_v))
        ch.outcome(np.round(want_v, 3).tobytes())
    if call != "lookup_linear_velocity":
        ch.check(np.shape(r[-2]) == want_w.shape and np.allclose(r[-2], want_w, 1e-5, 1e-5),
                 "angular velocity", cmp(r[-2], want_w))
        ch.outcome(np.round(want_w, 3).tobytes())


def scenarios(tier):
    q = tier == "quick"
    return [Scenario("lookup", lookup, 1 if q else 2),
            Scenario("options", options),
            Scenario("rotation vector", rotation_vector, 1 if q else 2),
            Scenario("lookup, fewer frames", lookup_few, 2 if q else 3),
            Scenario("long series", lookup_long, 1 if q else 2)]
