"""Velocity estimators differentiate time series in every layout."""
import itertools

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import INTS, as_int, cmp, fresh

ASSUMPTIONS = [
    "strictly increasing timestamps; at least four samples for the quaternion "
    "mode, at least 25 for the low-pass filter",
    "datetime64 timestamps are resolved to 0.25 us",
    "unit quaternions; numerical differentiation error of the quaternion mode "
    "bounded by 1e-4 relative to the rate",
    "rotation_vector mode: rotations about one fixed axis by less than half a turn",
]

BASE = np.datetime64("2021-05-01T10:00:00", "ns")
DT = 0.01
UNITS = ("ns", "us", "ms")


def spacing(kind, n):
    k = np.arange(n)
    return {
        "uniform": DT * k,
        "irregular": np.round(DT * (k + 0.3 * np.sin(2.0 * k)), 6),
        "offset": DT * k + 3.0,
        "negative": DT * (k - n),
        "gap": DT * (k + 2 * (k >= n // 2)),
        "slow": 0.05 * k,
    }[kind]


def stamp(g, kind):
    """Timestamps to pass, and the rate of true time per unit of theirs."""
    if kind == "float":
        return g, 1.0
    if kind == "int":
        return np.round(g / DT).astype(int), DT
    if kind == "list":
        return [float(x) for x in g], 1.0
    per = {"ns": 10**9, "ms": 10**3, "us": 10**6}[kind]
    return BASE.astype(f"datetime64[{kind}]") + np.round(g * per).astype(
        "int64").astype(f"timedelta64[{kind}]"), 1.0


VEL = np.array([[1.0, -0.5, 0.3], [0, 0, 0], [0, 2, 0], [-3, 1, 1e-3], [0.2, 0.2, 0.2]])
AXES = np.array([[0, 0, 1.0], [1, 0, 0], [1, 2, 2], [0, -1, 0], [-1, 1, 3]])
RATE = np.array([1.0, -2.0, 0.5, 0.0, 3.0])


def positions(g, e, motion="constant"):
    x = np.array([0.5, -1.0, 0.3]) * (1 + e) + g[:, None] * VEL[e % 5]
    v = np.tile(VEL[e % 5], (len(g), 1))
    if motion == "accelerating":
        a = np.array([1.0, -2.0, 0.5]) * (1 + e)
        x = x + g[:, None] ** 2 * a / 2
        v = v + g[:, None] * a
    elif motion == "resting":
        x = np.tile(x[:1], (len(g), 1))
        v = 0 * v
    return x, v


def rotations(g, e, motion="constant", general=True):
    """Unit quaternions of body-frame rate w, and w at each time."""
    n = AXES[e % 5] / np.linalg.norm(AXES[e % 5])
    r = RATE[e % 5]
    q0 = ref.axang((1, e, -1), 0.6 + e) if general else ref.axang(n, 0.3 + 0.1 * e)
    g0 = g - g[0]
    if motion == "accelerating":
        ang, w = r * g0 + 2 * g0**2, r + 4 * g0
    elif motion == "resting":
        ang, w = 0 * g0, 0 * g0
    else:
        ang, w = r * g0, r + 0 * g0
    q = ref.qmul(np.tile(q0, (len(g), 1)), ref.axang(n, ang))
    return q, w[:, None] * n


SIGNS = {
    "as is": lambda i: 1.0,
    "alternating": lambda i: (-1.0) ** i,
    "negative": lambda i: -1.0,
    "flip": lambda i: -1.0 if i >= 3 else 1.0,
    "two flips": lambda i: -1.0 if i in (2, 3, 5) else 1.0,
    # quaternions of any other norm denote the same rotations
    "doubled": lambda i: 2.0,
    "alternating, halved": lambda i: 0.5 * (-1.0) ** i,
}
WHAT = ["linear", "angular", "angular, rotation vector"]


def scale(sign, n):
    return np.array([SIGNS[sign](i) for i in range(n)])[:, None]


def series(what, g, e, motion, sign="as is"):
    if what == "linear":
        return positions(g, e, motion)
    q, w = rotations(g, e, motion, what == "angular")
    return q * scale(sign, len(q)), w


def call(rbm, what, arr, **kw):
    if what == "linear":
        return rbm.estimate_linear_velocity(arr, **kw)
    if what == "angular":
        return rbm.estimate_angular_velocity(arr, **kw)
    return rbm.estimate_angular_velocity(arr, mode="rotation_vector", **kw)


ENTRIES = ["array", "dataarray, named time", "dataarray, time by position",
           "dataarray, time first"]


def call_as(rbm, what, entry, arr, axis, time_axis, ts, **kw):
    """The same series as array or DataArray; velocities in the layout of ``arr``."""
    if entry == "array":
        return np.asarray(call(rbm, what, arr, axis=axis, time_axis=time_axis, timestamps=ts,
                               **kw))
    import xarray as xr

    arr = np.asarray(arr)
    dims = [f"d{i}" for i in range(arr.ndim)]
    dims[axis], dims[time_axis] = "space", "clock"
    da = xr.DataArray(arr, {"clock": ts}, dims)
    if entry == "dataarray, named time":
        return call(rbm, what, da, dim="space", timestamps="clock", **kw).values
    if entry == "dataarray, time by position":
        return call(rbm, what, da, axis=axis, time_axis=time_axis, **kw).values
    # everything by default: time first, space last
    da = da.transpose("clock", ..., "space")
    out = call(rbm, what, da, **kw)
    return out.transpose(*[("cartesian_axis" if d == "space" and what != "linear" else d)
                           for d in dims]).values


def motions(ch, whats=WHAT, ns=(7, 4, 5, 6, 12)):
    """One series (time, space) of every motion, spacing, dtype, sign pattern."""
    rbm = fresh()
    what = ch.choose("estimate", whats, free=True)
    n = ch.choose("samples", ns, free=True)
    e = ch.choose("element", range(5), free=True)
    motion = ch.choose("motion", ["constant", "accelerating", "resting"], free=True)
    sp = ch.choose("spacing", ["uniform", "irregular", "offset", "negative", "gap", "slow"],
                   free=True)
    tk = ch.choose("timestamps", ["float", "int", "list", "ns", "ms", "us"], free=True)
    sign = ch.choose("signs", list(SIGNS), free=True)
    ch.assume(what != "linear" or sign == "as is")
    ch.assume(not (tk == "int" and sp == "irregular"))
    # the rate would grow beyond what the spacing resolves
    ch.assume(not (what == "angular" and motion == "accelerating" and n > 12))
    g = spacing(sp, n)
    if tk in ("int", "ms"):
        g = np.round(g, 2)
        ch.assume(np.all(np.diff(g) > 0))
    x, v = series(what, g, e, motion, sign)
    ts, rate = stamp(g, tk)
    keep = x.copy()
    ch.state(what, n, e, motion, sp, tk, sign)
    got = call(rbm, what, x, timestamps=ts)
    ch.step()
    ch.check(np.array_equal(x, keep), "input modified")
    ch.check(np.shape(got) == v.shape, "layout", f"{np.shape(got)}")
    err = np.abs(np.asarray(got) / rate - v) - 1e-4 * (tk in UNITS) * (1 + np.abs(v).max())
    if what == "angular":
        h = np.max(np.diff(g))
        lim = 1e-6 + 5 * h**3 * (1 + np.abs(RATE[e % 5])) ** 4
        ch.check(np.all(err <= (lim if motion != "accelerating" else 10 * lim + 200 * h**3)),
                 "velocity", lambda: cmp(got / rate, v)() + f"\n{err.max()} > {lim}")
    else:
        # second-order formula: exact in the interior up to quadratic motion,
        # first order at the ends
        inner = err[1:-1]
        ch.check(np.all(inner <= 1e-6), "velocity", cmp(got / rate, v))
        end = 1e-6 if motion != "accelerating" else 4 * np.max(np.diff(g)) * (1 + e) + 1e-6
        ch.check(np.all(err <= end), "velocity at ends", cmp(got / rate, v))
    ch.outcome(np.round(v, 3).tobytes())


def make(what, shape, axis, time_axis, g, motion="constant", sign="as is"):
    """Array with time along time_axis, space along axis; expected velocity."""
    others = [s for s in shape]
    m = int(np.prod(others)) if others else 1
    xs, vs = zip(*[series(what, g, e, motion, sign) for e in range(m)])
    x = np.stack(xs, 1).reshape((len(g),) + tuple(others) + (-1,))
    v = np.stack(vs, 1).reshape((len(g),) + tuple(others) + (3,))
    return (np.moveaxis(x, (0, -1), (time_axis, axis)),
            np.moveaxis(v, (0, -1), (time_axis, axis)))


OTHER = [(), (2,), (3,), (4,), (5,), (2, 3), (4, 2)]


def layout(ch):
    """Every axis assignment, container and option."""
    rbm = fresh()
    import xarray as xr

    what = ch.choose("estimate", WHAT, free=True)
    other = ch.choose("other dimensions", OTHER, free=True)
    nd = len(other) + 2
    ax = ch.choose("axis", range(nd), free=True)
    ta = ch.choose("time axis", [i for i in range(nd) if i != ax], free=True)
    n = ch.choose("samples", [5, 4, 6], free=True)
    neg_ax = ch.choose("axis spelled", ["negative", "positive", "default"])
    neg_ta = ch.choose("time axis spelled", ["positive", "negative", "default"])
    ch.assume(neg_ax != "default" or ax == nd - 1)
    ch.assume(neg_ta != "default" or ta == 0)
    entry = ch.choose("entry", ["array", "dataarray dim", "dataarray axis", "fortran", "float32",
                                "dataarray, time by position", "list"], free=True)
    tk = ch.choose("timestamps", ["float", "ns", "int", "list"])
    sign = ch.choose("signs", ["as is", "alternating", "flip"])
    opt = ch.choose("options", ["none", "outlier_thresh", "huge outlier_thresh"])
    ch.assume(what != "linear" or sign == "as is")
    g = spacing("uniform", n)
    x, v = make(what, other, ax, ta, g, sign=sign)
    ts, rate = stamp(g, tk)
    kw = {}
    if neg_ax != "default":
        kw["axis"] = ax - nd if neg_ax == "negative" else ax
    if neg_ta != "default":
        kw["time_axis"] = ta - nd if neg_ta == "negative" else ta
    if opt == "outlier_thresh":
        kw["outlier_thresh"] = 1e-2
    elif opt.startswith("huge"):
        kw["outlier_thresh"] = 1e9
    keep = x.copy()
    arg, da = x, None
    dims = [f"d{i}" for i in range(nd)]
    dims[ax], dims[ta] = "space", "clock"
    if entry.startswith("dataarray"):
        ch.assume(tk != "list")
        coords = {"clock": ts, "run": 3, "space": list("wxyz")[-x.shape[ax]:],
                  "label": ("clock", [f"s{i}" for i in range(n)]),
                  "number": ("clock", np.arange(n) * 2.0),
                  "part": ("space", np.arange(x.shape[ax]))}
        if nd > 2:
            o = [i for i in range(nd) if i not in (ax, ta)][0]
            coords[dims[o]] = np.arange(x.shape[o]) * 5
        da = xr.DataArray(x.copy(), coords, dims, "pose", {"units": "m", "k": [1]})
        keep_da = da.copy(deep=True)
        arg = da
        if entry == "dataarray dim":
            kw.pop("axis", None)
            kw["dim"] = "space"
        if entry == "dataarray, time by position":
            ch.assume(neg_ta == "positive" or neg_ta == "default")
        else:
            kw.pop("time_axis", None)
            kw["timestamps"] = "clock"
    else:
        kw["timestamps"] = ts
        if entry == "fortran":
            arg = np.asfortranarray(x)
        elif entry == "float32":
            arg = x.astype("float32")
        elif entry == "list":
            arg = x.tolist()
    ch.state(what, other, ax, ta, n, neg_ax, neg_ta, entry, tk, sign, opt)
    got = call(rbm, what, arg, **kw)
    ch.step()
    ch.check(np.array_equal(x, keep), "input modified")
    if da is not None:
        ch.check(da.identical(keep_da), "input modified")
        want = list(dims)
        if what != "linear":
            want[ax] = "cartesian_axis"
        ch.check(isinstance(got, xr.DataArray) and list(got.dims) == want, "dims", f"{got}")
        names = set(da.coords)
        if what != "linear":
            names = names - {"space", "part"} | {"cartesian_axis"}
            ch.check(list(got["cartesian_axis"].values) == list("xyz"), "labels", f"{got}")
        ch.check(set(got.coords) == names, "coords", f"{got.coords}")
        for c in names - {"cartesian_axis"}:
            ch.check(np.array_equal(got[c].values, keep_da[c].values)
                     and got[c].dims == keep_da[c].dims, "coord " + c)
        ch.check(got.attrs == keep_da.attrs and got.name == "pose", "name and attributes")
    ch.check(np.shape(got) == v.shape, "layout", f"{np.shape(got)} != {v.shape}")
    got = np.asarray(got) / rate
    tol = 1e-4 if what == "angular" else 1e-7
    if tk in UNITS:
        tol = max(tol, 5e-4)
    if entry == "float32":
        tol = 2e-3
    # quaternion mode accuracy at the ends scales with the rate
    ch.check(np.all(np.abs(got - v) <= tol * (1 + 50 * (what == "angular"))), "velocity",
             cmp(got, v))
    ch.outcome(what, np.round(v, 3).tobytes())


def missing(ch):
    """Every set of up to two (thorough: three) missing samples."""
    rbm = fresh()
    what = ch.choose("estimate", WHAT, free=True)
    n = ch.choose("samples", [9, 10], free=True)
    sp = ch.choose("spacing", ["uniform", "irregular", "slow"], free=True)
    k = ch.choose("number missing", [1, 2, 0] + ([3] if ch.thorough else []), free=True)
    bad = list(ch.choose("missing", list(itertools.combinations(range(n), k)), free=True))
    e = ch.choose("element", range(3), free=True)
    how = ch.choose("missing components", ["all", "one"], free=True)
    lay = ch.choose("layout", ["(time, space)", "(space, time)", "(time, 2, space)"], free=True)
    sign = ch.choose("signs", ["as is", "alternating", "flip", "doubled"], free=True)
    ch.assume(sign == "as is" or what == "angular")
    entry = ch.choose("entry", ENTRIES, free=True)
    tk = ch.choose("timestamps", ["float", "ns", "us"], free=True)
    ch.assume((entry, tk) == ("array", "float") or e == 0 and sp == "irregular" and n == 9)
    g = spacing(sp, n)
    x, v = series(what, g, e, "constant", sign)
    x = x.copy()
    if how == "all":
        x[bad] = np.nan
    else:
        x[bad, 1] = np.nan
    ts, _ = stamp(g, tk)
    if lay == "(space, time)":
        got = call_as(rbm, what, entry, x.T, 0, 1, ts).T
    elif lay == "(time, 2, space)":
        x2, v2 = series(what, g, e + 1, "constant", sign)
        got = call_as(rbm, what, entry, np.stack((x, x2), 1), -1, 0, ts)
        ch.check(got.shape == (n, 2, 3), "layout", f"{got.shape}")
        ok = np.ones(n, bool)
        ok[bad] = what != "angular"
        lim = 1e-2 if what == "angular" else 1e-6 if tk == "float" else 5e-4
        ch.check(np.all(np.abs(got[ok, 1] - v2[ok]) < lim), "other series affected",
                 cmp(got[:, 1], v2))
        got = got[:, 0]
    else:
        got = call_as(rbm, what, entry, x, -1, 0, ts)
    ch.step()
    ch.state(what, n, sp, tuple(bad), e, how, lay, sign, entry, tk)
    ch.check(got.shape == v.shape, "layout", f"{got.shape}")
    ok = np.ones(n, bool)
    if what == "angular":
        ok[bad] = False
        ch.check(np.all(np.isnan(got[bad])), "missing sample filled", cmp(got, v))
        ch.check(np.all(np.isfinite(got[ok])), "valid sample lost", cmp(got, v))
    else:
        for b in bad:
            ok[max(0, b - 1):b + 2] = False
    lim = 1e-2 if what == "angular" else 1e-6 if tk == "float" else 5e-4
    ch.check(np.all(np.abs(got[ok] - v[ok]) < lim), "velocity", cmp(got, v))
    ch.outcome(what, tuple(bad))


def integers(ch):
    """Integer positions that use the whole range of their data type."""
    rbm = fresh()
    dt = ch.choose("dtype", list(INTS), free=True)
    n = ch.choose("samples", [9, 10], free=True)
    move = ch.choose("motion", ["up", "down", "up and down"], free=True)
    at = ch.choose("spike at", [None] + list(range(3, n - 3)), free=True)
    thr = ch.choose("outlier_thresh", [None, 2.5, 1e15], free=True)
    lay = ch.choose("layout", ["(time, space)", "(space, time)"], free=True)
    tk = ch.choose("timestamps", ["int", "float", "uint8", "int16"], free=True)
    lim = int(INTS[dt])
    k = np.arange(n)
    x = {"up": lim - 4 * n + 2 * k, "down": lim - 2 * k,
         "up and down": lim - 4 * n + np.minimum(k, 3)}[move]
    x = np.stack((x, x - 1, x * 0 + 50), -1)
    clean = x.copy()
    if at is not None:
        x[at] -= 30
    ch.state(dt, n, move, at, thr, lay, tk)
    ts = np.arange(n).astype(tk)
    a = x.astype(dt)
    kw = dict(timestamps=ts)
    if lay == "(space, time)":
        a = a.T
        kw.update(axis=0, time_axis=1)
    if thr is not None:
        kw["outlier_thresh"] = thr
    got = np.asarray(rbm.estimate_linear_velocity(a, **kw))
    ch.step()
    if lay == "(space, time)":
        got = got.T
    want = np.gradient((clean if thr == 2.5 else x).astype(float), axis=0)
    ok = np.all(np.isfinite(want), -1)
    if thr == 2.5 and at is not None and move == "up and down":
        # the turn next to the spike is interpolated as well
        ok &= np.abs(k - 3) > 4
    ch.check(np.shape(got) == want.shape and np.all(np.abs(got[ok] - want[ok]) < 1e-6),
             "velocity", cmp(got, want))
    ch.outcome(np.round(want, 3).tobytes())


def outliers(ch):
    """A jump or spike at every position is suppressed, everything else kept."""
    rbm = fresh()
    what = ch.choose("estimate", WHAT, free=True)
    n = 12
    at = ch.choose("position", range(3, 9), free=True)
    kind = ch.choose("outlier", ["step", "spike", "none"], free=True)
    size = ch.choose("size", [1.0, 0.05, -0.3], free=True)
    sp = ch.choose("spacing", ["uniform", "offset", "slow"], free=True)
    tk = ch.choose("timestamps", ["float", "ns", "list", "int"], free=True)
    lay = ch.choose("layout", ["(time, space)", "(space, time)", "(time, 2, space)",
                               "(2, time, space)", "(space, 2, time)"], free=True)
    th = ch.choose("threshold", ["between", "above"], free=True)
    e = ch.choose("element", [0, 2], free=True)
    entry = ch.choose("entry", ENTRIES, free=True)
    ch.assume(entry == "array" or e == 0 and sp == "offset" and tk != "list")
    sign = ch.choose("signs", list(SIGNS), free=True)
    ch.assume(sign == "as is" or what != "linear" and e == 0 and sp == "slow" and tk in ("ns", "float")
              and entry == "array")
    g = spacing(sp, n)
    if what == "linear":
        x, v = positions(g, e)
        off = size * np.array([1.0, 0.5, -1.0])
        x = x.copy()
        if kind == "step":
            x[at:] += off
        elif kind == "spike":
            x[at] += off
        x2, v2 = positions(g, e + 1)
    else:
        x, v = rotations(g, e, general=False)
        n_ax = AXES[e % 5]
        d = ref.axang(n_ax, 0.5 * size)
        x = x.copy()
        sel = slice(at, None) if kind == "step" else slice(at, at + 1)
        if kind != "none":
            x[sel] = ref.qmul(x[sel], np.tile(d, (len(x[sel]), 1)))
        x2, v2 = rotations(g, e + 1, general=False)
        x = x * scale(sign, n)
        x2 = x2 * scale("as is" if at % 2 else sign, n)
    ts, rate = stamp(g, tk)
    thr = 0.01 if th == "between" else 100.0

    def lay_out(a, b):
        if lay == "(time, space)":
            return a
        if lay == "(space, time)":
            return a.T
        s = np.stack((a, b), 1)
        if lay == "(2, time, space)":
            return s.transpose(1, 0, 2)
        if lay == "(space, 2, time)":
            return s.transpose(2, 1, 0)
        return s

    kw = {"(time, space)": (0, 1), "(space, time)": (1, 0), "(time, 2, space)": (0, 2),
          "(2, time, space)": (1, 2), "(space, 2, time)": (2, 0)}[lay]
    kw = dict(time_axis=kw[0], axis=kw[1], ts=ts)
    arr = lay_out(x, x2)
    plain = call_as(rbm, what, entry, arr, **kw) / rate
    got = call_as(rbm, what, entry, arr, outlier_thresh=thr, **kw) / rate
    ch.step(2)
    ch.state(what, at, kind, size, sp, tk, lay, th, e, entry, sign)
    want = lay_out(v, v2)
    ch.check(got.shape == want.shape, "layout", f"{got.shape} {want.shape}")
    if th == "above" or kind == "none":
        ch.check(np.allclose(got, plain, atol=1e-9), "changed below the threshold",
                 cmp(got, plain))
        return
    # samples that the outlier cannot have touched
    far = np.ones(n, bool)
    far[at - 2:at + 3] = False
    t = kw["time_axis"]
    ch.check(np.allclose(np.compress(far, got, t), np.compress(far, plain, t), atol=1e-9),
             "other samples changed", cmp(got, plain))
    if what != "angular":
        ch.check(np.all(np.abs(got - want) < (5e-4 if tk in UNITS else 1e-6)), "outlier not suppressed", cmp(got, want))
    ch.outcome(what, at, kind, size)


def lowpass(ch):
    """Motion below the cutoff passes the filter, motion above does not."""
    rbm = fresh()
    what = ch.choose("estimate", WHAT, free=True)
    n = ch.choose("samples", [40, 25, 60, 201], free=True)
    cut = ch.choose("cutoff", [0.25, 0.1, 0.5], free=True)
    e = ch.choose("element", range(5), free=True)
    tk = ch.choose("timestamps", ["float", "ns", "list", "int"], free=True)
    other = ch.choose("other dimensions", [(), (2,), (2, 2)], free=True)
    nd = len(other) + 2
    ax = ch.choose("axis", range(nd), free=True)
    ta = ch.choose("time axis", [i for i in range(nd) if i != ax], free=True)
    motion = ch.choose("motion", ["constant", "slow wave", "fast wave", "jump"], free=True)
    # waves: long series only, the ends of the series are not judged
    ch.assume((n == 201) == motion.endswith("wave"))
    ch.assume(motion != "jump" or what != "angular")
    # together with the suppression of outliers (of which only a jump has any)
    opt = {"cutoff": cut}
    if motion == "jump":
        opt["outlier_thresh"] = 0.01
    elif ch.flag("huge outlier_thresh", free=True):
        opt["outlier_thresh"] = 1e9
    entry = ch.choose("entry", ENTRIES, free=True)
    ch.assume(entry == "array" or e == 1 and n in (40, 201) and cut == 0.25 and tk == "ns")
    sign = ch.choose("signs", list(SIGNS), free=True)
    ch.assume(sign == "as is" or what != "linear" and e == 1 and n in (40, 201) and cut == 0.25
              and tk == "ns" and entry == "array")
    g = spacing("uniform", n)
    m = int(np.prod(other)) if other else 1
    wave = 0 * g
    if motion == "jump":
        wave = 0.5 * (np.arange(n) >= n // 2)
    elif motion != "constant":
        # fractions of the Nyquist frequency, like the cutoff
        f = 0.5 * cut if motion == "slow wave" else min(2 * cut, 0.9)
        wave = 1e-3 * np.sin(np.pi * f * np.arange(n) + 0.3)

    def one(k):
        if what == "linear":
            x, v = positions(g, e + k)
            return x + wave[:, None], v
        # slow enough for the rotation vectors of long series
        q, v = rotations(0.2 * g if n == 201 else g, e + k, general=what == "angular")
        if motion == "jump":
            n_ax = AXES[(e + k) % 5] * (1 if RATE[(e + k) % 5] >= 0 else -1)
            return ref.qmul(q, ref.axang(n_ax, wave)) * scale(sign, n), v
        v = 0.2 * v if n == 201 else v
        return ref.qmul(q, ref.axang(AXES[(e + k) % 5], wave)) * scale(sign, n), v

    xs, vs = zip(*[one(k) for k in range(m)])
    x, v = (np.moveaxis(np.stack(s, 1).reshape((n,) + other + (-1,)), (0, -1), (ta, ax))
            for s in (xs, vs))
    ts, rate = stamp(g, tk)
    got = call_as(rbm, what, entry, x, ax, ta, ts, **opt) / rate
    ch.step()
    ch.state(what, n, cut, e, tk, other, ax, ta, motion, entry, sign)
    ch.check(got.shape == v.shape, "layout", f"{got.shape} {v.shape}")
    if motion in ("constant", "jump"):
        ch.check(np.all(np.abs(got - v) < 1e-3), "constant velocity changed", cmp(got, v))
    else:
        plain = np.asarray(call(rbm, what, x, timestamps=ts, axis=ax, time_axis=ta)) / rate
        ch.step()
        mid = np.arange(n // 3, 2 * n // 3)
        size = np.abs(np.take(plain - v, mid, ta)).max()
        if motion == "slow wave":
            r = np.abs(np.take(got - plain, mid, ta)).max() / size
            ch.check(r < 0.05, "slow motion filtered", f"{r}")
        else:
            r = np.abs(np.take(got - v, mid, ta)).max() / size
            ch.check(r < 0.05, "fast motion not filtered", f"{r}")
    ch.outcome(what, np.round(v, 3).tobytes())


def rejected(ch):
    rbm = fresh()
    import xarray as xr

    what = ch.choose("estimate", WHAT, free=True)
    case = ch.choose("case", ["dim without DataArray", "same axis", "wrong length", "bad mode",
                              "dim and axis", "no such coordinate", "nan index time"], free=True)
    g = spacing("uniform", 6)
    x, _ = series(what, g, 0, "constant")
    da = xr.DataArray(x, {"time": g}, ("time", "space"))
    ch.state(what, case)
    if case == "dim without DataArray":
        ch.raises(lambda: call(rbm, what, x, dim="space", timestamps=g), "accepted", ValueError)
    elif case == "same axis":
        ch.raises(lambda: call(rbm, what, x, axis=0, timestamps=g), "accepted", ValueError)
    elif case == "wrong length":
        ch.raises(lambda: call(rbm, what, x, timestamps=g[:-1]), "accepted")
    elif case == "bad mode":
        ch.raises(lambda: rbm.estimate_angular_velocity(
            ref.axang((0, 0, 1), g), timestamps=g, mode="nope"), "accepted", ValueError)
    elif case == "dim and axis":
        ch.raises(lambda: call(rbm, what, da, dim="space", axis=1), "accepted", ValueError)
    elif case == "no such coordinate":
        ch.raises(lambda: call(rbm, what, da, timestamps="nope"), "accepted")
    else:
        ch.raises(lambda: call(rbm, what, da, timestamps=g), "accepted")


def scenarios(tier):
    q = tier == "quick"

    def miss(ch):
        ch.thorough = not q
        missing(ch)

    return [Scenario("motions", motions), Scenario("layout", layout, 1 if q else 3),
            Scenario("missing", miss), Scenario("outliers", outliers),
            Scenario("integers", integers, None),
            Scenario("lowpass", lowpass), Scenario("rejected", rejected),
            Scenario("many samples", lambda ch: motions(ch, WHAT[:2], (300, 2049)), None)]
