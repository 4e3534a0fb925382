"""DataArray accessor interpolates and inverts quaternions with labels."""
import itertools
import warnings

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = [
    "strictly increasing sample coordinates; new coordinates within their range and not half way between two samples",
    "neighbouring rotations less than half a turn apart (C09)",
]

BASE = np.datetime64("2020-03-01T12:00:00", "ns")
LENS = {"t": 6, "a": 2, "b": 3, "q": 4}
# dimension orders with the time and quaternion dimension at every position
DIMS = [p for k in (2, 3, 4) for s in itertools.combinations("tabq", k) if "t" in s and "q" in s
        for p in itertools.permutations(s)]
OUT = {
    "between": [0.3, 0.6, 1.2, 2.8, 4.9], "samples": [0.0, 1, 2, 3, 4, 5], "some samples": [1.0, 4.0],
    "one": [2.2], "mixed": [0.0, 0.1, 1.0, 3.9, 5.0], "backwards": [4.1, 2.0, 0.7],
    "repeated": [1.3, 1.3, 2.0, 2.0], "last": [5.0], "four": [0.2, 1.7, 3.3, 4.4],
}
TK = ["float", "int", "ns", "reversed storage"]


def stamps(g, kind):
    g = np.asarray(g, float)
    if kind == "int":
        return np.round(g * 10).astype(int)
    if kind == "ns":
        return BASE + np.round(g * 1e9).astype("timedelta64[ns]")
    return g


def build(ch, dims, names, tk, dtype="float64", signs=False):
    """DataArray with quaternions, its reference values (t, rest..., 4) and coords."""
    import xarray as xr

    n = LENS["t"]
    rest = [d for d in dims if d not in "tq"]
    shape = [LENS[d] for d in rest]
    k = int(np.prod(shape)) if shape else 1
    g = np.arange(n, dtype=float)
    if tk == "int":
        g = np.array([0.0, 1, 2, 3, 4, 5])
    q = np.stack([ref.qmul(ref.axang([1, j, -0.5 * j], 0.5 * g + 0.2 * j),
                           ref.axang([0, 1, 0], np.asarray(0.3 + j))) for j in range(k)], 1)
    if signs:
        q = q * np.where((np.arange(n)[:, None] + np.arange(k)) % 3 == 1, -1, 1)[..., None]
    if dtype == "int64":
        q = np.round(q * 3).astype(int)
    q = q.astype(dtype)
    q = q.reshape([n] + shape + [4])
    arr = np.moveaxis(np.moveaxis(q, -1, len(dims) - 1), 0, 0)
    src = ["t"] + rest + ["q"]
    arr = np.ascontiguousarray(np.transpose(q, [src.index(d) for d in dims]))
    da = xr.DataArray(arr, dims=[names[d] for d in dims], name="orientation",
                      attrs={"long_name": "Orientation", "reference_frame": "world", "n": [1, 2]})
    return da, q, g, rest


def reference(q, g, out):
    """Interpolated (n_out, rest..., 4)."""
    flat = q.astype(float).reshape(len(g), -1, 4)
    r = np.stack([ref.squad(flat[:, j], g, out) for j in range(flat.shape[1])], 1)
    return r.reshape((len(out),) + q.shape[1:])


def qinterp(ch):
    import xarray as xr

    fresh()
    dims = ch.choose("dimensions", DIMS, free=True)
    out = np.array(ch.choose("new coordinates", OUT, free=True))
    tk = ch.choose("coordinate", ["float", "int", "ns"], free=True)
    names = ch.choose("names", [dict(t="time", a="run", b="body", q="quaternion_axis"),
                                dict(t="frame", a="time", b="cartesian_axis", q="wxyz"),
                                dict(t="x", a="quaternion_axis", b="t", q="w")])
    extra = ch.choose("further coordinates", ["all", "none", "numeric", "labels", "two dimensions"])
    cont = ch.choose("given as", ["array", "list", "coordinate", "dataarray", "other coords",
                                  "index"])
    spell = ch.choose("spelling", ["keyword", "dict"])
    dtype = ch.choose("dtype", ["float64", "float32"])
    signs = ch.flag("flipped signs")
    labels = ch.choose("quaternion labels", [True, False])
    ch.state(dims, out.tobytes(), tk, str(names), extra, cont, spell, dtype, signs, labels)
    da, q, g, rest = build(ch, dims, names, tk, dtype, signs)
    T, Q = names["t"], names["q"]
    ts, to = stamps(g, tk), stamps(out, tk)
    c = {T: ts}
    lerp, near, keep = {}, {}, {}
    if labels:
        keep[Q] = (Q, list("wxyz"))
    n = len(g)
    if extra in ("all", "numeric"):
        lerp["speed"] = ((T,), np.sin(g) * 3)
        lerp["count"] = ((T,), np.arange(n) * 7 - 3)
    if extra in ("all", "labels"):
        near["label"] = ((T,), np.array(list("uvwxyz"))[:n])
        near["valid"] = ((T,), np.arange(n) % 2 == 0)
        near["clock"] = ((T,), BASE + np.arange(n) * np.timedelta64(90, "s"))
    if extra in ("all", "two dimensions") and rest:
        d = rest[0]
        lerp["grid"] = ((names[d], T), np.outer(np.arange(LENS[d]) + 1.0, g ** 2))
        near["tags"] = ((T, names[d]), np.array([[f"{i}{j}" for j in range(LENS[d])] for i in range(n)]))
        keep["unit " + d] = ((names[d],), np.arange(LENS[d]) * 1.5)
    if extra != "none":
        keep["session"] = ((), 42)
        keep["subject"] = ((), "xyz")
        for d in rest:
            keep[names[d]] = ((names[d],), np.array(list("kji"))[: LENS[d]])
    da = da.assign_coords({**c, **keep, **lerp, **near})
    orig = da.copy(deep=True)
    arg = {"array": lambda: to, "list": lambda: list(to), 
           "coordinate": lambda: xr.DataArray(to, dims=T, coords={T: to}, name=T)[T],
           "dataarray": lambda: xr.DataArray(to, dims=T),
           "other coords": lambda: xr.DataArray(to, {T: to, "foreign": (T, np.arange(len(to))), "z": 3}, (T,)),
           "index": lambda: __import__("pandas").Index(to)}[cont]()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = {} if Q == "quaternion_axis" else {"qdim": Q}
        if spell == "dict" or T == "coords":
            r = da.rbm.qinterp({T: arg}, **kw)
        else:
            r = da.rbm.qinterp(**{T: arg}, **kw)
    ch.check(da.identical(orig), "input modified", lambda: repr(da))
    want = reference(q, g, out)
    order = [T] + [names[d] for d in rest] + [Q]
    ch.check(isinstance(r, xr.DataArray) and r.dims == da.dims, "dims", lambda: repr(r))
    got = r.transpose(*order).values
    ch.check(got.shape == want.shape and ref.same_quat(got, want, 1e-5 if dtype == "float32" else 1e-7), "values",
             cmp(got, want))
    ch.check(r.name == "orientation" and r.attrs == orig.attrs, "name and attributes", lambda: repr(r))
    names_ = {T} | set(keep) | set(lerp) | set(near)
    ch.check(set(r.coords) == names_, "coordinates", lambda: f"{set(r.coords)} {names_}")
    ch.check(r[T].dims == (T,) and np.array_equal(r[T].values, to), "new coordinate", cmp(r[T].values, to))
    ch.check(np.issubdtype(r[T].dtype, np.asarray(to).dtype.type), "new coordinate", r[T].dtype)
    for k in keep:
        ch.check(r[k].variable.identical(orig[k].variable), "remaining coordinate", lambda: f"{k}: {r[k]!r}")
    for k, (cd, v) in lerp.items():
        x = r[k].transpose(T, ...).values
        w = ref.lerp(np.moveaxis(v, cd.index(T), 0), g, out)
        ch.check(r[k].dims and set(r[k].dims) == set(cd) and np.shape(x) == w.shape
                 and np.allclose(x, w, rtol=1e-6, atol=1e-6), "numeric coordinate", cmp(x, w))
    for k, (cd, v) in near.items():
        x = r[k].transpose(T, ...).values
        i = np.array([int(np.argmin(np.abs(g - o))) for o in out])
        w = np.moveaxis(v, cd.index(T), 0)[i]
        ch.check(set(r[k].dims) == set(cd) and np.array_equal(x, w), "nearest coordinate",
                 lambda: f"{k}: {x} instead of {w}")
    ch.step(len(out))
    ch.outcome(np.round(want, 5).tobytes())


def qinterp_long(ch):
    """Thousands of samples and of new coordinates."""
    import xarray as xr

    fresh()
    n, m = ch.choose("samples and new coordinates", [(1100, 700), (60, 3000), (2100, 2100)], free=True)
    dims = ch.choose("dimensions", [("t", "q"), ("q", "t"), ("t", "b", "q"), ("b", "q", "t")], free=True)
    tk = ch.choose("coordinate", ["float", "ns"], free=True)
    ch.state(n, m, dims, tk)
    g = np.arange(n) * 1.0
    out = np.linspace(0.17, n - 1.13, m)
    k = 3 if "b" in dims else 1
    q = np.stack([ref.qmul(ref.axang([1, j, -0.5 * j], 0.5 * np.sin(0.4 * g) + 0.2 * j),
                           ref.axang([0, 1, 0], 0.03 * g)) for j in range(k)], 1)
    if k == 1:
        q = q[:, 0]
    src = [d for d in "tbq" if d in dims]
    da = xr.DataArray(np.transpose(q, [src.index(d) for d in dims]), dims=list(dims),
                      coords={"t": stamps(g, tk), "q": list("wxyz"), "speed": ("t", 3 * np.sin(g))})
    r = da.rbm.qinterp(t=stamps(out, tk), qdim="q")
    flat = q.reshape(n, k, 4)
    want = np.stack([ref.squad(flat[:, j], g, out) for j in range(k)], 1).reshape((m,) + q.shape[1:])
    ch.check(r.dims == da.dims, "dims", lambda: repr(r))
    got = r.transpose(*src).values
    ch.check(got.shape == want.shape and ref.same_quat(got, want, 1e-6), "values", cmp(got, want))
    ch.check(np.array_equal(r["t"].values, stamps(out, tk)), "new coordinate")
    w = ref.lerp(3 * np.sin(g), g, out)
    ch.check(r["speed"].shape == w.shape and np.allclose(r["speed"].values, w, 1e-6, 1e-6),
             "numeric coordinate", cmp(r["speed"].values, w))
    ch.step(m)
    ch.outcome(n, m, dims)


def qinv(ch):
    fresh()
    dims = ch.choose("dimensions", DIMS + [("q",), ("q", "a"), ("a", "q"), ("q", "b", "a")], free=True)
    names = ch.choose("names", [dict(t="time", a="run", b="body", q="quaternion_axis"),
                                dict(t="quaternion_axis", a="time", b="cartesian_axis", q="wxyz")], free=True)
    dtype = ch.choose("dtype", ["float64", "float32", "int64"], free=True)
    scale = ch.choose("norm", [1.0, 2.5, 1e-3, "different"])
    coords = ch.choose("coordinates", ["all", "none"])
    ro = ch.flag("read only")
    ch.state(dims, str(names), dtype, scale, coords, ro)
    if "t" in dims:
        da, _, g, rest = build(ch, dims, names, "float", dtype)
    else:
        d2 = tuple(d for d in dims) + ("t",)
        da, _, g, rest = build(ch, d2, names, "float", dtype)
        da = da.isel({names["t"]: 1}, drop=True).copy(deep=True)
    if dtype != "int64" and scale != 1.0:
        if scale == "different":
            s = np.arange(da.size // 4).reshape([x for d, x in zip(dims, da.shape) if d != "q"]) + 0.5
            s = np.expand_dims(s, dims.index("q"))
        else:
            s = scale
        da.values = (da.values * s).astype(dtype)
    if coords == "all":
        c = {names["q"]: list("wxyz"), "session": 3}
        for d in dims:
            if d != "q":
                c[names[d]] = np.arange(LENS[d]) * 0.5
                c["second " + d] = (names[d], np.array(list("abcdef"))[: LENS[d]])
        da = da.assign_coords(c)
    if ro:
        da.values.flags.writeable = False
    orig = da.copy(deep=True)
    kw = {} if names["q"] == "quaternion_axis" else {"qdim": names["q"]}
    r = da.rbm.qinv(**kw)
    ch.check(da.identical(orig), "input modified")
    ax = dims.index("q")
    q = np.moveaxis(np.asarray(orig.values, float), ax, -1)
    if dtype == "int64":
        ch.assume(np.all(np.any(q != 0, -1)))
    want = np.moveaxis(ref.qinv(q), -1, ax)
    ch.check(r.dims == orig.dims and r.shape == orig.shape, "dims", lambda: repr(r))
    ch.check(np.allclose(r.values, want, rtol=1e-5 if dtype == "float32" else 1e-9, atol=1e-7), "values", cmp(r.values, want))
    ch.check(r.name == orig.name and r.attrs == orig.attrs, "name and attributes")
    ch.check(set(r.coords) == set(orig.coords) and
             all(r[k].variable.identical(orig[k].variable) for k in orig.coords), "coordinates", lambda: repr(r))
    r.values[...] = 0
    r.attrs["new"] = 1
    ch.check(da.identical(orig), "result shares memory with the input")
    ch.step()
    ch.outcome(np.round(want, 5).tobytes())


def rejected(ch):
    import xarray as xr

    fresh()
    q = np.tile([1.0, 0, 0, 0], (5, 1))
    da = xr.DataArray(q, {"time": np.arange(5.0), "quaternion_axis": list("wxyz")},
                      ("time", "quaternion_axis"))
    da3 = da.expand_dims(run=[1, 2, 3])
    cases = {
        "unknown dimension": lambda: da.rbm.qinterp(foo=[1.0]),
        "coordinate, not a dimension": lambda: da.assign_coords(s=("time", np.arange(5.0))).rbm.qinterp(s=[1.0]),
        "unknown quaternion dimension": lambda: da.rbm.qinterp(time=[1.0], qdim="foo"),
        "default quaternion dimension": lambda: da.rename(quaternion_axis="q").rbm.qinterp(time=[1.0]),
        "scalar": lambda: da.rbm.qinterp(time=1.0),
        "0-d array": lambda: da.rbm.qinterp(time=np.array(1.0)),
        "0-d dataarray": lambda: da.rbm.qinterp(time=xr.DataArray(1.0)),
        "2-d array": lambda: da.rbm.qinterp(time=np.ones((2, 2))),
        "2-d dataarray": lambda: da.rbm.qinterp(time=xr.DataArray(np.ones((2, 2)), dims=("x", "y"))),
        "two dimensions": lambda: da3.rbm.qinterp(time=[1.0], run=[1]),
        "two dimensions, dict": lambda: da3.rbm.qinterp({"time": [1.0], "run": [1]}),
        "no dimension": lambda: da.rbm.qinterp(),
        "empty dict": lambda: da.rbm.qinterp({}),
        "dict and keyword": lambda: da3.rbm.qinterp({"time": [1.0]}, run=[1]),
        "quaternion dimension": lambda: da.rbm.qinterp(quaternion_axis=["w"]),
        "dates into numbers": lambda: da.rbm.qinterp(time=["2020-01-01"]),
        "three components": lambda: da.isel(quaternion_axis=slice(3)).rbm.qinterp(time=[1.0]),
        "inverse, unknown dimension": lambda: da.rbm.qinv("foo"),
        "inverse, default dimension": lambda: da.rename(quaternion_axis="q").rbm.qinv(),
        "inverse, coordinate": lambda: da.assign_coords(s=("time", np.arange(5))).rbm.qinv("s"),
        "inverse, three components": lambda: da.isel(quaternion_axis=slice(3)).rbm.qinv(),
        "inverse, time": lambda: da.rbm.qinv("time"),
    }
    name = ch.choose("call", list(cases), free=True)
    ch.state(name)
    keep = da.copy(deep=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ch.raises(cases[name], "accepted: " + name)
    ch.check(da.identical(keep), "input modified")


def scenarios(tier):
    b = 0 if tier == "quick" else 2
    return [Scenario("qinterp", qinterp, 1 if tier != "quick" else 0), Scenario("long series", qinterp_long), Scenario("qinterp options", few(qinterp), 1 + b),
            Scenario("qinv", qinv, 1 + b), Scenario("rejected", rejected)]


def few(fn):
    """The same with a small alphabet of shapes, so that more options combine."""
    def run(ch):
        global DIMS, OUT
        keep = DIMS, OUT
        DIMS = [("t", "q"), ("a", "q", "t"), ("q", "t", "b", "a")]
        OUT = {k: keep[1][k] for k in ("between", "samples", "mixed")}
        try:
            return fn(ch)
        finally:
            DIMS, OUT = keep
    return run
