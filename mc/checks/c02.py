"""Array transforms in every layout."""
import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import INTS, STORAGE, as_int, cmp, fresh

ASSUMPTIONS = [
    "timestamps strictly increasing",
    "arrays without timestamps in a moving pair: one-dimensional only",
]

TS = np.arange(6.0)
FT = np.array([[np.sin(i), 0.3 * i, 1.0 - 0.1 * i * i] for i in range(6)])
FR = np.array([ref.axang((1, 0.2 * i, -0.5), 0.3 * i + 0.1) for i in range(6)])
T0 = np.array([1.0, -2.0, 0.5])
R0 = ref.axang((1, 2, 3), 0.7)


def setup(rbm, kind):
    """world <- a (static) <- m (kind); returns transform evaluator m->world."""
    rbm.register_frame("world")
    rbm.register_frame("a", "world", T0, R0)
    A = ref.Rigid.from_tq(T0, R0)
    if kind == "static":
        rbm.register_frame("m", "a", FT[2], FR[2])
        M = lambda ts: ref.Rigid.from_tq(FT[2], FR[2]).then(A)
    elif kind == "moving":
        rbm.register_frame("m", "a", FT, FR, TS)
        def M(ts):
            return ref.Rigid(
                ref.qmat(ref.squad(FR, TS, ts)), ref.lerp(FT, TS, ts)
            ).then(A)
    elif kind == "discrete":
        rbm.register_frame("m", "a", FT, FR, TS, discrete=True)
        def M(ts):
            return ref.Rigid(
                ref.qmat(ref.hold(FR, TS, ts)), ref.hold(FT, TS, ts)
            ).then(A)
    return M


PAIRS = {
    "m->world": ("m", "world", False),
    "world->m": ("world", "m", True),
    "m->m": ("m", "m", None),
}


def apply(method, T, q, arr):
    """Apply batched/unbatched rigid T to arr with spatial last, time first."""
    if T.R.ndim == 3:
        extra = (1,) * (arr.ndim - 2)
        n = T.R.shape[0]
        T = ref.Rigid(
            T.R.reshape((n,) + extra + (3, 3)),
            T.t.reshape((n,) + extra + (3,)),
        )
    if method == "points":
        return T.point(arr)
    if method == "vectors":
        return T.vector(arr)
    # quaternions: left-multiplication changes the rotation matrix by R and
    # preserves the norm (all frame rotations here are unit)
    return T.R @ ref.qmat(arr), np.linalg.norm(arr, axis=-1)


def values(shape, spatial_axis, quat, dtype):
    n = int(np.prod(shape))
    k = np.arange(n)
    if dtype == "int":
        a = ((k * 7) % 11 - 5).reshape(shape)
        if quat:
            a = a.copy()
            np.moveaxis(a, spatial_axis, -1)[..., 0] += 7  # never zero
        return a
    a = (np.sin(1.7 * k) * 3 + np.cos(0.3 * k)).reshape(shape)
    if quat:
        a = a / np.linalg.norm(a, axis=spatial_axis, keepdims=True)
    if dtype in ("huge", "tiny"):
        return a * {"huge": 1e9, "tiny": 1e-9}[dtype]
    if dtype == "nan":
        # missing elements
        a = a.copy()
        b = np.moveaxis(a, spatial_axis, 0)
        miss = (np.arange(int(np.prod(b.shape[1:]))) % 3 == 1).reshape(b.shape[1:])
        b[:, miss] = np.nan
        return a
    if dtype == "uint64":
        return as_int(a + 0.01, "uint16").astype(dtype)
    if dtype == "float16":
        return np.round(a).astype(dtype)
    if dtype in INTS:
        return as_int(a + 0.01, dtype).astype(dtype)
    return a.astype(np.float32) if dtype == "float32" else a


def call(rbm, entry, method, arr, outof, into, kw):
    if entry == "function":
        f = getattr(rbm, "transform_" + method)
        return f(arr, into=into, outof=outof, return_timestamps=True, **kw)
    rf = rbm.registry[outof]
    f = getattr(rf, "transform_" + method)
    return f(arr, into, return_timestamps=True, **kw)


def verify(ch, method, out, want, sa):
    if method == "quaternions":
        R, norm = want
        got = np.moveaxis(np.asarray(out), sa, -1)
        ch.check(
            got.shape == R.shape[:-2] + (4,), "shape",
            lambda: f"{np.shape(out)} spatial axis {sa}, want {R.shape[:-2]}+4",
        )
        miss = np.isnan(norm)
        ch.check(np.isnan(got[miss]).all() and not np.isnan(got[~miss]).any(), "missing",
                 cmp(got, R))
        got, R, norm = got[~miss], R[~miss], norm[~miss]
        ch.check(ref.same_rot(got, R, 1e-6), "rotation", cmp(got, R))
        s = np.max(norm, initial=1e-300)
        ch.check(
            ref.close(np.linalg.norm(got, axis=-1) / s, norm / s, 1e-6), "norm",
            cmp(np.linalg.norm(got, axis=-1), norm),
        )
        ch.outcome(np.round(R, 3).tobytes())
    else:
        w = np.moveaxis(want, -1, sa)
        ch.check(np.shape(out) == w.shape, "shape", f"{np.shape(out)} != {w.shape}")
        # relative to the magnitude of the values
        s = np.max(np.abs(w[~np.isnan(w)]), initial=1e-300)
        ch.check(ref.close(np.asarray(out) / s, w / s, 2e-6), "values", cmp(out, w))
        ch.outcome(np.round(w, 3).tobytes())


def untimed(ch):
    """No timestamps: static pairs, any layout."""
    rbm = fresh()
    method = ch.choose("method", ["points", "vectors", "quaternions"], free=True)
    ndim = ch.choose("ndim", [1, 2, 3, 4], free=True)
    ndim += ch.flag("one more axis")
    sa = ch.choose("spatial axis", list(range(ndim)), free=True)
    axis = ch.choose("axis spelling", [sa, sa - ndim])
    pair = ch.choose("pair", list(PAIRS))
    entry = ch.choose("entry", ["function", "method"])
    sizes = ch.choose(
        "sizes", [(5, 2, 6), (3, 3, 3), (4, 4, 4), (1, 1, 1), (3, 4, 2), (2, 3, 4),
                  (300, 2, 1), (2, 301, 1), (2049, 1, 1), (1, 1025, 1),
                  (0, 2, 3)][: 10 if method == "quaternions" else 11]
    )
    dtype = ch.choose("dtype", ["float", "int", "float32", "list", "int16", "uint8", "int64",
                                "huge", "tiny", "nan", "uint64", "float16"])
    store = ch.choose("storage", STORAGE)
    ta = ch.choose("time_axis", [None, 0, ndim - 1, -1])
    N = 4 if method == "quaternions" else 3
    shape = list((sizes + (2,))[: ndim - 1])
    shape.insert(sa, N)
    ch.state(method, tuple(shape), axis, pair, entry, dtype, ta)
    M = setup(rbm, "static")
    o, i, inv = PAIRS[pair]
    T = ref.Rigid() if inv is None else (M(None).inv() if inv else M(None))
    arr = values(tuple(shape), sa, N == 4, dtype)
    ch.assume(not (dtype == "list" and 0 in shape))
    a_in = arr.tolist() if dtype == "list" else store(arr)
    kw = {}
    if not (axis == -1 and ch.flag("axis omitted")):
        kw["axis"] = axis
    if ta is not None:
        kw["time_axis"] = ta
    out = call(rbm, entry, method, a_in, o, i, kw)
    ch.step()
    if entry == "function":
        out, ts = out
    else:
        out, ts = out
    ch.check(ts is None, "timestamps", f"{ts}")
    want = apply(method, T, None, np.moveaxis(arr, sa, -1).astype(float))
    verify(ch, method, out, want, sa)


GRIDS = {
    "same": TS,
    "inner-offset": np.array([0.5, 1.5, 2.0, 4.25]),
    "three": np.array([1.0, 2.0, 3.0]),
    "overhang": np.array([-1.0, 0.0, 0.5, 5.0, 7.0]),
    "one": np.array([2.5]),
    "two": np.array([0.25, 4.75]),
    "long": np.linspace(0.0, 5.0, 151),
    "very long": np.linspace(-0.5, 6.0, 2049),
}


def timed(ch):
    """Timestamps along a chosen time axis; static, moving, discrete pairs."""
    rbm = fresh()
    method = ch.choose("method", ["points", "vectors", "quaternions"], free=True)
    ndim = ch.choose("ndim", [2, 3, 4], free=True)
    ndim += ch.flag("one more axis")
    sa = ch.choose("spatial axis", list(reversed(range(ndim))), free=True)
    ta = ch.choose(
        "time axis", [k for k in range(ndim) if k != sa], free=True
    )
    kind = ch.choose("kind", ["moving", "static", "discrete"])
    pair = ch.choose("pair", list(PAIRS))
    entry = ch.choose("entry", ["function", "method"])
    aspell = ch.choose("axis spelling", [sa, sa - ndim])
    tspell = ch.choose("time axis spelling", [ta, ta - ndim])
    grid = ch.choose("grid", GRIDS)
    sizes = ch.choose("sizes", [(2, 5), (3, 3), (4, 4), (1, 1), (4, 3), (101, 1), (1025, 1)])
    dtype = ch.choose("dtype", ["float", "int", "float32", "list", "int16", "uint8", "int64",
                                "huge", "tiny", "nan", "uint64", "float16"])
    store = ch.choose("storage", STORAGE)
    N = 4 if method == "quaternions" else 3
    shape = list((sizes + (2,))[: ndim - 2])
    for ax, n in sorted([(sa, N), (ta, len(grid))]):
        shape.insert(ax, n)
    ch.state(method, tuple(shape), aspell, tspell, kind, pair, entry, dtype)
    M = setup(rbm, kind)
    o, i, inv = PAIRS[pair]
    ts = grid
    if inv is not None and kind == "moving":
        keep = (ts >= TS[0]) & (ts <= TS[-1])
    else:
        keep = np.ones(len(ts), bool)
    ts_out = ts[keep]
    arr = values(tuple(shape), sa, N == 4, dtype)
    a_in = arr.tolist() if dtype == "list" else store(arr)
    if N == 4 and "int" in dtype:
        # resampling of non-unit quaternion series is outside the domain
        ch.assume(False)
    kw = dict(timestamps=ts.tolist() if dtype == "list" else ts)
    if aspell != -1 or ch.flag("axis explicit"):
        kw["axis"] = aspell
    if tspell != 0 or ch.flag("time_axis explicit"):
        kw["time_axis"] = tspell
    out, got_ts = call(rbm, entry, method, a_in, o, i, kw)
    ch.step()
    ch.check(
        got_ts is not None and ref.close(got_ts, ts_out, 0), "timestamps",
        lambda: f"{got_ts} != {ts_out}",
    )
    a = np.moveaxis(arr, [ta, sa], [0, -1]).astype(float)
    # a: (time, others in order, spatial)
    a = a[keep]
    T = ref.Rigid() if inv is None else (M(ts_out).inv() if inv else M(ts_out))
    want = apply(method, T, None, a)
    out = np.asarray(out)
    ch.check(out.ndim == ndim, "ndim", f"{out.shape}")
    got = np.moveaxis(out, [ta, sa], [0, -1])
    verify(ch, method, got, want, -1 if method != "quaternions" else got.ndim - 1)


def broadcast(ch):
    """A single vector/point/quaternion without timestamps, moving pair."""
    rbm = fresh()
    method = ch.choose("method", ["points", "vectors", "quaternions"], free=True)
    kind = ch.choose("kind", ["moving", "discrete"], free=True)
    pair = ch.choose("pair", ["m->world", "world->m"], free=True)
    entry = ch.choose("entry", ["function", "method"], free=True)
    axis = ch.choose("axis", [None, 0, -1], free=True)
    dtype = ch.choose("dtype", ["float", "int", "float32", "list", "int16", "uint8", "int64"], free=True)
    M = setup(rbm, kind)
    o, i, inv = PAIRS[pair]
    N = 4 if method == "quaternions" else 3
    arr = values((N,), 0, N == 4, dtype)
    kw = {} if axis is None else dict(axis=axis)
    ch.state(method, kind, pair, entry, axis, dtype)
    out, ts = call(rbm, entry, method, arr.tolist() if dtype == "list" else arr,
                   o, i, kw)
    ch.step()
    ch.check(ts is not None and ref.close(ts, TS, 0), "timestamps", str(ts))
    T = M(TS).inv() if inv else M(TS)
    a = np.repeat(arr[None].astype(float), len(TS), axis=0)
    want = apply(method, T, None, a)
    verify(ch, method, out, want, 1)


def invalid(ch):
    """Calls that do not fit must raise."""
    rbm = fresh()
    method = ch.choose("method", ["points", "vectors", "quaternions"], free=True)
    kind = ch.choose("kind", ["static", "moving", "discrete"], free=True)
    entry = ch.choose("entry", ["function", "method"], free=True)
    setup(rbm, kind)
    N = 4 if method == "quaternions" else 3
    M = 7 - N
    n = 6
    cases = {
        "short spatial": (np.ones((n, N - 1)), {}),
        "long spatial": (np.ones((n, N + 1)), {}),
        "other method's length": (np.ones((n, M)), {}),
        "spatial axis 0 of (6, N)": (np.ones((n, N)), dict(axis=0)),
        "spatial axis 1 of 3-d": (np.ones((n, 2, N)), dict(axis=1, timestamps=TS)),
        "too few timestamps": (np.ones((n, N)), dict(timestamps=TS[:-1])),
        "too many timestamps": (np.ones((n, N)), dict(timestamps=np.arange(7.0))),
        "timestamps along wrong axis": (
            np.ones((2, n, N)), dict(timestamps=TS, time_axis=0)),
        "2-d timestamps": (np.ones((n, N)), dict(timestamps=np.ones((n, 1)))),
        "same axis for space and time": (
            np.ones((N, N)), dict(axis=0, time_axis=0, timestamps=np.arange(float(N)))),
        "same axis, spelled differently": (
            np.ones((n, N)), dict(axis=1, time_axis=-1, timestamps=np.arange(float(N)))),
        "axis out of range": (np.ones((n, N)), dict(axis=2)),
        "decreasing timestamps": (np.ones((n, N)), dict(timestamps=TS[::-1])),
        "unknown target": (np.ones((n, N)), dict(into="nope")),
    }
    if kind != "static":
        cases["untimed matrix in moving pair"] = (np.ones((n, N)), {})
        cases["untimed 3-d in moving pair"] = (np.ones((n, 2, N)), {})
        cases["untimed (2,3,N)"] = (np.ones((2, 3, N)), {})
    name = ch.choose("case", list(cases), free=True)
    arr, kw = cases[name]
    kw = dict(kw)
    into = kw.pop("into", "world")
    ch.state(method, kind, entry, name)
    ch.raises(lambda: call(rbm, entry, method, arr, "m", into, kw), "accepted:" + name)


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("untimed", untimed, 2 if q else 3),
        Scenario("stamped", timed, 2 if q else 3),
        Scenario("broadcast", broadcast, None),
        Scenario("invalid", invalid, None),
    ]
