"""Coordinate-system transforms are correct and mutually inverse."""
import itertools

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import INTS, as_int, cmp, fresh

ASSUMPTIONS = [
    "finite coordinates; the azimuth is unspecified where the radius in the "
    "plane is zero, the polar angle at the origin",
    "no other dimension already has the name of the new dimension",
]

V = [0.0, 1.0, -1.0, 2.5, -0.3, 1e-7, 300.0, -0.0, 1e-160, -5e150]
R = [0.0, 1.0, 0.25, 300.0]
TH = [0.0, np.pi / 2, np.pi, 0.3, 2.8, 1e-7]
PHI = [0.0, np.pi / 2, -np.pi / 2, np.pi, 0.7, -2.9, 3.1, -1e-7]


def ang_diff(a, b):
    return np.abs((a - b + np.pi) % (2 * np.pi) - np.pi)


def rel(a, b):
    return np.abs(a - b) <= 1e-12 * np.maximum(np.abs(a), np.abs(b)) + 1e-300


def points(ch):
    """Definition and inverse on the full grid of coordinate values."""
    rbm = fresh()
    k = ch.choose("pair", ["polar", "spherical"], free=True)
    gen = ch.choose("entry", ["function", "transform_coordinates"], free=True)
    way = ch.choose("from", ["cartesian", "curvilinear"], free=True)
    first = ch.choose("first coordinate", V if way == "cartesian" else R, free=True)

    def f(x, out, into):
        if gen == "function":
            return getattr(rbm, f"{out}_to_{into}")(x)
        return rbm.transform_coordinates(x, into=into, outof=out)

    n = 2 if k == "polar" else 3
    ch.state(k, gen, way, first)
    if way == "cartesian":
        x = np.array(list(itertools.product([first], *[V] * (n - 1))))
        c = f(x, "cartesian", k)
        ch.step(len(x))
        ch.check(c.shape == x.shape and np.all(np.isfinite(c)), "not finite", cmp(c, x))
        big = np.max(np.abs(x), axis=-1, keepdims=True)
        u = x / np.where(big == 0, 1, big)
        r = np.sqrt(np.sum(u**2, -1)) * big[:, 0]
        tiny = (np.abs(x) < 1e-150).all(-1)
        huge = (np.abs(x) > 1e140).any(-1)
        ok = ~huge & ~tiny
        ch.check(np.all(np.abs(c[ok, 0] - r[ok]) <= 1e-12 * r[ok]), "radius", cmp(c[ok, 0], r[ok]))
        ch.check(np.all(c[tiny, 0] < 1e-149), "radius near zero", cmp(c[tiny], x[tiny]))
        rho = np.hypot(x[:, 0], x[:, 1])
        phi = np.angle(x[:, 0] + 1j * x[:, 1])
        m = (rho > 0) & ~huge
        ch.check(np.all(ang_diff(c[m, -1], phi[m]) < 1e-12), "azimuth", cmp(c[m, -1], phi[m]))
        ch.check(np.all(np.abs(c[:, -1]) <= np.pi), "azimuth range", cmp(c[:, -1], 0))
        if n == 3:
            th = np.angle(x[:, 2] + 1j * rho)
            m = (rho + np.abs(x[:, 2]) > 0) & ok
            ch.check(np.all(np.abs(c[m, 1] - th[m]) < 1e-7), "polar angle", cmp(c[m, 1], th[m]))
            ch.check(np.all((c[:, 1] >= 0) & (c[:, 1] <= np.pi)), "polar angle range", cmp(c[:, 1], 0))
        b = f(c, k, "cartesian")
        m = ok
        sc = np.max(np.abs(x[m]), -1, keepdims=True)
        ch.check(np.all(np.abs(b[m] - x[m]) <= 1e-7 * sc), "inverse", cmp(b[m], x[m]))
    else:
        c = np.array(list(itertools.product([first], *([TH] if n == 3 else []), PHI)))
        x = f(c, k, "cartesian")
        ch.step(len(c))
        r, phi = c[:, 0], c[:, -1]
        s = np.sin(c[:, 1]) if n == 3 else 1.0
        z = r * s * np.exp(1j * phi)
        want = np.stack([z.real, z.imag] + ([r * np.cos(c[:, 1])] if n == 3 else []), -1)
        ch.check(ref.close(x, want, 1e-12), "values", cmp(x, want))
        b = f(x, "cartesian", k)
        ch.check(np.all(np.abs(b[:, 0] - r) <= 1e-12 * r + 1e-300), "inverse radius", cmp(b[:, 0], r))
        m = (r > 0) & (np.abs(s) > 1e-10)
        ch.check(np.all(ang_diff(b[m, -1], phi[m]) < 1e-9), "inverse azimuth", cmp(b[m], c[m]))
        if n == 3 and first > 0:
            ch.check(np.all(np.abs(b[:, 1] - c[:, 1]) < 1e-7), "inverse polar angle", cmp(b, c))
    ch.outcome(np.round(c, 5).tobytes())


SYS = {"cartesian>polar": 2, "polar>cartesian": 2, "cartesian>spherical": 3,
       "spherical>cartesian": 3}
MID = {"(4,)": (4,), "()": (), "(2, 4)": (2, 4), "(3, 2)": (3, 2), "(2, 2, 3)": (2, 2, 3),
       "(0,)": (0,)}
BIG = {"(2049,)": (2049,), "(1000, 2)": (1000, 2), "(2, 1025)": (2, 1025)}
LABELS = {"polar": ["r", "phi"], "spherical": ["r", "theta", "phi"]}


def value_grid(mid, n, outof):
    k = np.arange(int(np.prod(mid)))
    if outof == "cartesian":
        x = np.stack([2 * np.sin(1 + k + 2 * i) + 0.1 for i in range(n)], -1)
    else:
        x = np.stack([1 + 0.5 * k] + ([0.2 + 0.3 * (k % 9)] if n == 3 else [])
                     + [2.9 * np.sin(k + 1)], -1)
    return x.reshape(mid + (n,))


def oracle(x, outof, into):
    if into == "polar":
        return np.stack((np.hypot(x[..., 0], x[..., 1]),
                         np.angle(x[..., 0] + 1j * x[..., 1])), -1)
    if into == "spherical":
        rho = np.hypot(x[..., 0], x[..., 1])
        return np.stack((np.hypot(rho, x[..., 2]), np.angle(x[..., 2] + 1j * rho),
                         np.angle(x[..., 0] + 1j * x[..., 1])), -1)
    if outof == "polar":
        z = x[..., 0] * np.exp(1j * x[..., 1])
        return np.stack((z.real, z.imag), -1)
    z = x[..., 0] * np.sin(x[..., 1]) * np.exp(1j * x[..., 2])
    return np.stack((z.real, z.imag, x[..., 0] * np.cos(x[..., 1])), -1)


def arrays(ch, shapes=MID):
    rbm = fresh()
    import xarray as xr

    pair = ch.choose("conversion", list(SYS), free=True)
    outof, into = pair.split(">")
    n = SYS[pair]
    mid = shapes[ch.choose("shape", list(shapes), free=True)]
    entry = ch.choose("entry", ["function", "transform_coordinates", "dataarray"], free=True)
    where = ch.choose("axis", [-1] + list(range(len(mid) + 1)) + [-2, -3], free=True)
    ch.assume(-len(mid) - 1 <= where <= len(mid))
    dt = ch.choose("dtype", ["float64", "int64", "float32", "small int64", "int32", "int16",
                              "uint16"])
    x = value_grid(mid, n, outof)
    if dt == "small int64" or dt in INTS and outof != "cartesian":
        x = np.round(2 * x)
        if dt.startswith("u"):
            x = np.abs(x)
        dt = dt.split()[-1]
    elif dt in INTS:
        x = as_int(x, dt)
    elif dt == "float32":
        x = x.astype("float32").astype(float)
    want = np.moveaxis(oracle(x, outof, into), -1, where)
    a = np.moveaxis(x, -1, where).astype(dt)
    before = a.copy()
    tol = 1e-5 if dt == "float32" or "16" in dt else 1e-10
    if entry != "dataarray":
        kw = {} if where == -1 else {"axis": where}
        ch.state(pair, mid, entry, where, dt)
        if entry == "function":
            r = getattr(rbm, f"{outof}_to_{into}")(a, **kw)
        else:
            r = rbm.transform_coordinates(a, into, outof, **kw)
        ch.step()
        ch.check(type(r) is np.ndarray and ref.close(r, want, tol), "values", cmp(r, want))
        ch.check(np.array_equal(a, before), "input modified")
        ch.outcome(np.round(want, 5).tobytes())
        return
    sel = ch.choose("dimension given by", ["dim", "axis", "default"], free=True)
    ch.assume(sel != "default" or where == -1)
    replace = ch.choose("replace_dim", [None, False, True], free=True)
    attr = ch.choose("coordinate_system attribute", ["none", "right", "right, outof omitted",
                                                     "other"])
    spd = ch.choose("dimension name", ["xyz", f"{outof}_axis"])
    extra = ch.choose("coords", ["none", "labels", "secondary", "2-d", "scalar", "time",
                                 "all", "string"])
    named = ch.flag("named")
    nd = x.ndim
    dims = [f"d{i}" for i in range(nd)]
    pos = where % nd
    dims[pos] = spd
    coords = {}
    others = [i for i in range(nd) if i != pos]
    if extra in ("labels", "all"):
        coords[spd] = ((spd,), [f"c{i}" for i in range(n)])
    if extra in ("secondary", "all"):
        coords["sec"] = ((spd,), np.arange(n) * 1.5)
    if extra in ("2-d", "all") and others:
        o = others[0]
        coords["two"] = ((dims[o], spd), np.arange(a.shape[o] * n).reshape(a.shape[o], n))
    if extra in ("scalar", "all"):
        coords["run"] = ((), 3)
    if extra in ("time", "all") and others:
        o = others[-1]
        coords[dims[o]] = ((dims[o],), np.datetime64("2020-01-01", "ns")
                           + np.arange(a.shape[o]) * np.timedelta64(1, "s"))
    if extra in ("string", "all") and others:
        o = others[0]
        coords["lab"] = ((dims[o],), np.array([f"s{i}" for i in range(a.shape[o])], dtype="U5"))
    attrs = {"units": "m", "nested": [1, 2]}
    if attr.startswith("right"):
        attrs["coordinate_system"] = outof
    elif attr == "other":
        attrs["coordinate_system"] = "something"
    da = xr.DataArray(a, coords, dims, "position" if named else None, attrs)
    keep = da.copy(deep=True)
    kw = {}
    if sel == "dim":
        kw["dim"] = spd
    elif sel == "axis":
        kw["axis"] = where
    if replace is not None:
        kw["replace_dim"] = replace
    if not attr.endswith("omitted"):
        kw["outof"] = outof
    ch.state(pair, mid, where, dt, sel, replace, attr, spd, extra, named)
    r = rbm.transform_coordinates(da, into, **kw)
    ch.step()
    ch.check(isinstance(r, xr.DataArray), "type", f"{type(r)}")
    ch.check(ref.close(r.values, want, tol), "values", cmp(r.values, want))
    new_dims = list(dims)
    want_coords = {k: v for k, v in keep.coords.items()}
    if replace is not False:
        new = f"{into}_axis"
        new_dims[pos] = new
        want_coords = {k: v for k, v in want_coords.items() if spd not in v.dims}
        labels = LABELS.get(into, ["x", "y", "z"][:n])
        ch.check(new in r.coords and list(r.coords[new].values) == labels
                 and r.coords[new].dims == (new,), "labels", lambda: f"{r.coords}")
        names = set(want_coords) | {new}
    else:
        names = set(want_coords)
    ch.check(list(r.dims) == new_dims, "dims", f"{r.dims} {new_dims}")
    ch.check(set(r.coords) == names, "coordinates", f"{sorted(r.coords)} {sorted(names)}")
    for k, v in want_coords.items():
        ch.check(r.coords[k].dims == v.dims and np.array_equal(r.coords[k].values, v.values)
                 and r.coords[k].dtype == v.dtype, "coordinate " + k, f"{r.coords[k]}")
    ch.check(r.name == keep.name, "name", f"{r.name}")
    wa = dict(keep.attrs)
    if "coordinate_system" in wa:
        wa["coordinate_system"] = into
    ra = dict(r.attrs)
    if "coordinate_system" not in wa:
        ra.pop("coordinate_system", None)
        ch.check(r.attrs.get("coordinate_system", into) == into, "attribute", f"{r.attrs}")
    ch.check(ra == wa, "attributes", f"{r.attrs} {wa}")
    ch.check(da.identical(keep), "input modified", lambda: f"{da}")
    ch.outcome(np.round(want, 5).tobytes(), tuple(new_dims))


def rejected(ch):
    rbm = fresh()
    import xarray as xr

    names = ["cartesian", "polar", "spherical", "bogus", None]
    o = ch.choose("from", names, free=True)
    i = ch.choose("to", names, free=True)
    n = ch.choose("length", [1, 2, 3, 4], free=True)
    entry = ch.choose("entry", ["array", "dataarray", "function", "other axis"], free=True)
    x = np.ones((5, n))
    ok = (f"{o}>{i}" in SYS) and SYS[f"{o}>{i}"] == n
    ch.assume(not ok or entry == "other axis")
    ch.state(o, i, n, entry)
    if entry == "array":
        fn = lambda: rbm.transform_coordinates(x, i, o)
    elif entry == "dataarray":
        da = xr.DataArray(x, dims=("t", "c"), attrs={} if o is None else {"coordinate_system": o})
        keep = da.copy(deep=True)
        fn = lambda: rbm.transform_coordinates(da, i)
        ch.raises(fn, f"accepted: {o}>{i} {n} {entry}")
        ch.check(da.identical(keep), "input modified", lambda: f"{da}")
        return
    elif entry == "function":
        ch.assume(f"{o}>{i}" in SYS)
        fn = lambda: getattr(rbm, f"{o}_to_{i}")(x)
    else:
        ch.assume(f"{o}>{i}" in SYS)
        fn = lambda: rbm.transform_coordinates(x, i, o, axis=0)
    ch.raises(fn, f"accepted: {o}>{i} {n} {entry}")


def scenarios(tier):
    return [
        Scenario("points", points),
        Scenario("arrays", arrays, 2 if tier == "quick" else None),
        Scenario("rejected", rejected),
        Scenario("many elements", lambda ch: arrays(ch, BIG), 0 if tier == "quick" else 1),
    ]
