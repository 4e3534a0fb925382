"""DataArray interface equals numpy interface plus correct labels."""
import itertools
import warnings

import numpy as np
import xarray as xr

from mc import ref
from mc.explore import Scenario
from mc.util import STORAGE, cmp, fresh

ASSUMPTIONS = [
    "the time dimension has a strictly increasing coordinate",
    "default timestamps only where the first dimension is the time dimension",
]

TS = np.arange(6.0)
BASE = np.datetime64("2021-01-01T00:00:00", "ns")
GRIDS = {
    "same": TS,
    "overhang": np.array([-1.0, 0.5, 1.0, 3.25, 7.0]),
    "inner": np.array([0.5, 1.5, 4.75]),
}


def stamp(g, dt):
    if dt == "datetime":
        return BASE + (np.asarray(g) * 1e9).astype("int64").astype("timedelta64[ns]")
    return np.asarray(g, float)


def setup(rbm, kind, dt):
    k = np.arange(6.0)
    t = np.stack((np.sin(k), 0.3 * k, 1 - 0.1 * k * k), -1)
    q = np.array([ref.axang((1, 0.2 * x, -0.5), 0.3 * x + 0.1) for x in k])
    rbm.register_frame("world")
    rbm.register_frame("a", "world", (1.0, -2.0, 0.5), ref.axang((1, 2, 3), 0.7))
    if kind == "static":
        rbm.register_frame("m", "a", t[2], q[2])
    else:
        rbm.register_frame("m", "a", t, q, stamp(TS, dt), discrete=kind == "discrete")
    rbm.register_frame("n", "world", (0.0, 1.0, 0.0), ref.axang((0, 1, 1), 0.4))


FUNCS = ["transform_points", "transform_vectors", "transform_quaternions",
         "transform_angular_velocity", "transform_linear_velocity"]


def extra_coords(which, da_dims, shape, sp):
    """name -> (dims, values, how it follows the time coordinate)."""
    n = dict(zip(da_dims, shape))
    T = n.get("time")
    c = {}
    if "spatial labels" in which:
        c[sp] = ((sp,), ["w", "x", "y", "z"][-n[sp]:] if n[sp] == 3 else list("wxyz"), None)
    if "scalar" in which:
        c["run"] = ((), 7, None)
    if "2-d spatial" in which and "sample" in n:
        c["ss"] = (("sample", sp), np.arange(n["sample"] * n[sp]).reshape(n["sample"], -1), None)
    if "sample" in which and "sample" in n:
        c["sample"] = (("sample",), [10 * i for i in range(n["sample"])], None)
        c["slabel"] = (("sample",), [f"s{i}" for i in range(n["sample"])], None)
    if T is not None:
        i = np.arange(T)
        if "numeric" in which:
            c["num"] = (("time",), i * 1.5 - i**2, "interp")
        if "int" in which:
            c["cnt"] = (("time",), i * 10, "interp")
        if "string" in which:
            c["lab"] = (("time",), np.array([f"t{k}" for k in i]), "nearest")
        if "bool" in which:
            c["odd"] = (("time",), i % 2 == 1, "nearest")
        if "datetime" in which:
            c["rec"] = (("time",), np.datetime64("2000-01-01", "ns") + i * np.timedelta64(1, "D"),
                        "nearest")
        if "time x spatial" in which:
            c["ts2"] = (("time", sp), i[:, None] * (1.0 + np.arange(n[sp])), "interp")
        if "sample x time" in which and "sample" in n:
            c["st2"] = (("sample", "time"), np.arange(1.0, n["sample"] + 1)[:, None] * i, "interp")
    return c


EXTRA = ["none", "spatial labels", "numeric", "string", "int", "bool", "datetime",
         "scalar", "2-d spatial", "sample", "time x spatial", "sample x time"]


def follow(vals, dims, how, g_in, g_out):
    ax = dims.index("time")
    v = np.moveaxis(np.asarray(vals), ax, 0)
    if how == "interp":
        w = ref.lerp(v, g_in, g_out)
    else:
        # nearest; both neighbours are acceptable halfway
        w = [v[[j for j in range(len(g_in))
                if abs(abs(g_in[j] - t) - np.min(np.abs(g_in - t))) < 1e-9]] for t in g_out]
        return w
    return np.moveaxis(w, 0, ax)


def da_few(ch):
    """Fewer functions and layouts, more deviations at once."""
    da(ch, FUNCS[:1] + FUNCS[2:3] + FUNCS[4:], ["moving", "static"],
       [("time", "S"), ("S", "sample", "time"), ("sample", "time", "S"), ("S", "sample")],
       ["overhang", "inner"])


def da(ch, funcs=FUNCS, kinds=("moving", "static", "discrete"), orders=None, grids=GRIDS):
    rbm = fresh()
    fn = ch.choose("function", list(funcs), free=True)
    kind = ch.choose("pair", list(kinds), free=True)
    order = ch.choose(
        "dims", orders or [("time", "S"), ("S", "time"), ("S",), ("time", "sample", "S"),
                 ("S", "sample", "time"), ("time", "S", "sample"), ("sample", "S"),
                 ("S", "sample"), ("sample", "time", "S"), ("sample", "S", "time"),
                 ("S", "time", "sample")], free=True)
    grid = GRIDS[ch.choose("grid", list(grids), free=True)] if "time" in order else None
    sp_named = ch.choose("spatial dim name", ["own", "default"])
    dt = ch.choose("time", ["float", "datetime"])
    quat = fn == "transform_quaternions"
    N = 4 if quat else 3
    sp = ("quaternion_axis" if quat else "cartesian_axis") if sp_named == "default" else "xyz"
    dims = tuple(sp if d == "S" else d for d in order)
    size = {"time": len(grid) if grid is not None else 0, sp: N,
            "sample": ch.choose("samples", [2, 3, 4, 1]) if "sample" in dims else 0}
    shape = tuple(size[d] for d in dims)
    ax = dims.index(sp)
    tax = dims.index("time") if "time" in dims else None

    setup(rbm, kind, dt)
    k = np.arange(int(np.prod(shape)))
    vals = (np.sin(1.7 * k) * 3 + np.cos(0.3 * k)).reshape(shape)
    if quat:
        vals = vals / np.linalg.norm(vals, axis=ax, keepdims=True)
    dtype = ch.choose("data", ["float", "int", "float32", "uint8", "missing"])
    if dtype == "float32":
        vals = vals.astype(np.float32)
    elif dtype == "missing":
        vals.flat[::5] = np.nan
    elif dtype != "float":
        vals = np.round(vals * 9).astype("int64")
        vals = (np.abs(vals) + 1).astype(dtype) if quat or dtype == "uint8" else vals
    plain = np.array(vals)
    vals = ch.choose("layout", STORAGE)(vals)
    tname = ch.choose("time dim name", ["time", "t"]) if "time" in dims else "time"

    # spelling
    opts = [("dim", dict(dim=sp)), ("axis", dict(axis=ax)),
            ("negative axis", dict(axis=ax - len(dims)))]
    if ax == len(dims) - 1:
        opts.append(("default", {}))
    kw = dict(ch.choose("spatial spelling", dict(opts)))
    static_false = tax is None or (kind == "static" and ch.flag("timestamps=False"))
    if static_false:
        kw["timestamps"] = False
        if tax is None and len(dims) == 1 and ch.flag("timestamps omitted"):
            del kw["timestamps"]
    else:
        spell = ["name"] + (["default"] if tax == 0 else []) + ["time_axis", "negative time_axis"]
        s = ch.choose("time spelling", spell)
        if s == "name":
            kw["timestamps"] = tname
        elif s == "time_axis":
            kw["time_axis"] = tax
        elif s == "negative time_axis":
            kw["time_axis"] = tax - len(dims)
    # n-d array without timestamps in a moving pair must be rejected
    must_raise = kind != "static" and static_false and len(dims) > 1
    into = ch.choose("into", ["world", "n", "m"])
    outof = "m"
    src = ch.choose("outof", ["explicit", "object", "attrs", "attrs disagree",
                              "attrs, other frame elsewhere", "explicit, other frame elsewhere"])
    which = ch.choose("coords", EXTRA) if not ch.flag("all coords") else " ".join(EXTRA[1:]) + ","
    which = [w for w in EXTRA if w in which] if isinstance(which, str) else which
    vname = ch.choose("name", ["arr", None])
    vel = "velocity" in fn
    extra_kw = {}
    what = "representation_frame" if fn == "transform_vectors" else "reference_frame"
    if vel:
        what = ch.choose("what", ["reference_frame", "moving_frame", "representation_frame"])
        extra_kw["what"] = what
        if fn == "transform_linear_velocity":
            if what == "reference_frame":
                extra_kw["moving_frame"] = "n"
            elif what == "moving_frame":
                extra_kw["reference_frame"] = "world"

    c = extra_coords(which, dims, shape, sp)
    coords = {n: (d, v) for n, (d, v, _) in c.items()}
    if tax is not None:
        coords["time"] = ("time", stamp(grid, dt))
    attrs = {"units": "m", "note": [1, 2]}
    if src == "attrs":
        attrs[what] = "m"
        o = None
    elif src.endswith("elsewhere"):
        # reference and representation frame are independent of each other
        attrs.update(reference_frame="a", representation_frame="a")
        attrs[what] = "m"
        o = None if src.startswith("attrs") else "m"
    elif src == "attrs disagree":
        attrs[what] = "a"
        o = "m"
    else:
        o = rbm.registry["m"] if src == "object" else "m"
    arr = xr.DataArray(vals, coords, dims, vname, attrs)
    if tname != "time":
        arr = arr.rename(time=tname)
    before = arr.copy(deep=True)
    ch.state(fn, kind, dims, tuple(p[2] for p in ch.points))

    def call():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return getattr(rbm, fn)(
                arr, into=rbm.registry[into] if src == "object" else into, outof=o,
                **kw, **extra_kw)

    if must_raise and into != "m":
        ch.raises(call, "accepted n-d array without timestamps")
        ch.check(arr.identical(before), "input modified after error")
        return
    ch.assume(not must_raise)

    # the numpy interface on the same data
    nkw = dict(axis=ax)
    if not static_false:
        nkw.update(timestamps=stamp(grid, dt), time_axis=tax)
    want, ts = getattr(rbm.registry["m"], fn)(
        plain, into, return_timestamps=True, **nkw, **extra_kw)
    out = call()
    ch.step(2)
    ch.check(isinstance(out, xr.DataArray), "type", type(out))
    if tname != "time" and tname in out.dims:
        ch.check("time" not in out.dims and "time" not in out.coords, "dims", f"{out.dims}")
        out, before, arr = (a.rename({tname: "time"}) for a in (out, before, arr))
    if "time" not in dims and ts is not None:
        want_dims = ("time",) + dims
        g_out = None
    else:
        want_dims = dims
    ch.check(out.dims == want_dims, "dims", f"{out.dims} != {want_dims}")
    ch.check(ref.close(out.values, want, 1e-12), "values", cmp(out.values, want))
    ch.check(out.name == vname, "name", f"{out.name}")
    # attributes
    wa = dict(attrs)
    wa[what] = into
    wa["representation_frame"] = into
    for key, v in wa.items():
        ch.check(out.attrs.get(key) == v, "attribute " + key,
                 f"{out.attrs.get(key)!r} != {v!r}")
    # coordinates
    if ts is not None:
        ch.check("time" in out.coords and np.array_equal(out["time"].values, ts),
                 "time coordinate", lambda: f"{out.coords}")
        ch.check(out["time"].dims == ("time",), "time coordinate dims")
    elif tax is not None:
        ch.check(np.array_equal(out["time"].values, stamp(grid, dt)), "time coordinate")
    if tax is not None and ts is not None:
        g_out = grid[np.isin(stamp(grid, dt), ts)]
        resampled = len(g_out) != len(grid)
    else:
        resampled = False
    want_names = set(c) | ({"time"} if tax is not None or ts is not None else set())
    ch.check(set(out.coords) == want_names, "coordinate names",
             f"{sorted(map(str, out.coords))} != {sorted(want_names)}")
    for name, (d, v, how) in c.items():
        got = out[name]
        ch.check(got.dims == tuple(d), "coordinate dims " + name, f"{got.dims}")
        if how is None or not resampled:
            ch.check(np.array_equal(got.values, np.asarray(before[name].values)),
                     "coordinate " + name, cmp_any(got.values, before[name].values))
        elif how == "interp":
            w = follow(v, d, how, grid, g_out)
            ch.check(ref.close(got.values, w, 1e-6), "coordinate " + name,
                     cmp_any(got.values, w))
        else:
            w = follow(v, d, how, grid, g_out)
            ok = len(got) == len(w) and all(g in list(a) for g, a in zip(got.values, w))
            ch.check(ok, "coordinate " + name, cmp_any(got.values, w))
    ch.check(arr.identical(before), "input modified",
             lambda: f"{arr}\n{before}")
    ch.outcome(out.dims, out.shape, tuple(sorted(map(str, out.coords))),
               np.round(want, 6).tobytes())


def cmp_any(a, b):
    return lambda: f"got {a}\nexpected {b}"


def rejected(ch):
    rbm = fresh()
    setup(rbm, "moving", "float")
    fn = ch.choose("function", FUNCS, free=True)
    N = 4 if fn == "transform_quaternions" else 3
    arr = xr.DataArray(np.ones((6, N)), {"time": TS}, ("time", "xyz"), "a", {"units": "m"})
    cases = {
        "dim and axis": dict(arr=arr, into="world", outof="m", dim="xyz", axis=1),
        "unknown dim": dict(arr=arr, into="world", outof="m", dim="abc"),
        "unknown timestamps": dict(arr=arr, into="world", outof="m", timestamps="abc"),
        "timestamps array": dict(arr=arr, into="world", outof="m", timestamps=TS),
        "no outof": dict(arr=arr, into="world"),
        "numpy without outof": dict(arr=arr.values, into="world", timestamps=TS),
        "dim with numpy": dict(arr=arr.values, into="world", outof="m", dim="xyz"),
        "same axis": dict(arr=arr, into="world", outof="m", dim="time"),
        "unknown outof in attrs": dict(
            arr=arr.assign_attrs(reference_frame="zz", representation_frame="zz"),
            into="world"),
        "unknown into": dict(arr=arr, into="zz", outof="m"),
        "wrong length": dict(arr=arr.isel(xyz=[0, 1]), into="world", outof="m"),
    }
    case = ch.choose("case", list(cases), free=True)
    kw = dict(cases[case])
    a = kw["arr"]
    before = a.copy()
    ch.state(fn, case)
    if fn == "transform_linear_velocity":
        kw["moving_frame"] = "n"
    ch.raises(lambda: getattr(rbm, fn)(**kw), "accepted: " + case)
    same = a.identical(before) if isinstance(a, xr.DataArray) else np.array_equal(a, before)
    ch.check(same, "input modified")


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("dataarray", da, 1 if q else 2),
        Scenario("dataarray, fewer layouts", da_few, 2 if q else 3),
        Scenario("rejected", rejected, None),
    ]
