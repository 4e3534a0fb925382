"""All entry points to the same query agree."""
import itertools
import warnings

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = [
    "the values themselves are decided by C01-C08; here every entry point is compared with the others and with the labels the result must carry",
    "agreement to 1e-9, including the kind of error",
]

BASE = np.datetime64("2021-03-04T05:06:07", "ns")
FRAMES = ["m2", "c", "world", "s", "m", "d", "s2"]
PARENT = {"s": "world", "m": "world", "m2": "m", "d": "world", "c": "m2", "s2": "s"}


def motion(k, g):
    g = np.asarray(g, float)
    t = np.stack([np.sin(g + k), 2 * np.cos(0.5 * g), 0.1 * g + k], -1)
    ax = np.array([[1, 2, 3], [0, 0, 1], [-1, 0.5, 0]][k % 3], float)
    q = ref.axang(ax, 0.4 * g + 0.3 * k)
    return t, ref.qmul(q, ref.axang([1, 0, 0], np.asarray(0.7)))


def stamps(g, kind):
    if kind == "float":
        return np.asarray(g, float)
    if kind == "int":
        return np.round(np.asarray(g) * 10).astype(int)
    return BASE + np.round(np.asarray(g) * 1e9).astype("timedelta64[ns]").astype(f"timedelta64[{kind}]")


GRID = np.arange(0, 8) * 0.5
GRID2 = 0.6 + np.arange(0, 6) * 0.4


def tree(rbm, kind):
    o = {"world": rbm.ReferenceFrame("world")}
    st = lambda k: [x for x in motion(k, 0.8)]
    o["s"] = rbm.ReferenceFrame("s", o["world"], *st(1))
    o["m"] = rbm.ReferenceFrame("m", o["world"], *motion(0, GRID), stamps(GRID, kind))
    o["m2"] = rbm.ReferenceFrame("m2", o["m"], *motion(1, GRID2), stamps(GRID2, kind))
    o["d"] = rbm.ReferenceFrame("d", o["world"], *motion(2, GRID2[:3]), stamps(GRID2[:3], kind),
                                discrete=True)
    o["c"] = rbm.ReferenceFrame("c", o["m2"], *st(2))
    o["s2"] = rbm.ReferenceFrame("s2", o["s"], *st(0))
    for f in o.values():
        f.register()
    return o


def attempt(fn):
    """Result as tuple or the type of the error."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn()
    except Exception as e:  # noqa
        return ("error", type(e).__name__)
    return r if isinstance(r, tuple) else (r,)


def same(ch, got, want, what):
    if want[0] is not None and isinstance(want[0], str):
        ch.check(got == want, what, lambda: f"{got} instead of {want}")
        return
    ok = len(got) == len(want) and not (isinstance(got[0], str))
    ch.check(ok, what, lambda: f"{got!r}\ninstead of\n{want!r}")
    for a, b in zip(got, want):
        if b is None or a is None:
            ch.check(a is None and b is None, what, lambda: f"{a!r} {b!r}")
            continue
        a, b = np.asarray(a), np.asarray(b)
        ch.check(a.shape == b.shape and a.dtype.kind == b.dtype.kind, what,
                 lambda: f"{a.dtype} {a.shape} instead of {b.dtype} {b.shape}")
        if b.dtype.kind in "Mm":
            ch.check(np.array_equal(a, b), what, cmp(a, b))
        else:
            ch.check(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True), what, cmp(a, b))
    ch.step()


def labels(ch, ds, ts, qdim):
    import xarray as xr

    ch.check(list(ds["cartesian_axis"].values) == list("xyz"), "labels", lambda: repr(ds))
    if qdim:
        ch.check(list(ds["quaternion_axis"].values) == list("wxyz"), "labels", lambda: repr(ds))
    if ts is None:
        ch.check("time" not in ds.coords and "time" not in ds.dims, "time of a static result",
                 lambda: repr(ds))
    else:
        ch.check("time" in ds.coords, "time", lambda: repr(ds))
        a, b = ds["time"].values, np.asarray(ts)
        ch.check(a.shape == b.shape and np.array_equal(a, b), "time", cmp(a, b))


def attrs(ch, da, **want):
    got = {k: da.attrs.get(k) for k in want}
    ch.check(got == want, "attributes", lambda: f"{da.name}: {got} instead of {want}")


def named(o, *names):
    """All ways to give the frames by name or object."""
    idx = [i for i, n in enumerate(names) if n is not None]
    for bits in itertools.product([False, True], repeat=len(idx)):
        out = list(names)
        for i, b in zip(idx, bits):
            if b:
                out[i] = o[names[i]]
        yield out


def transforms(ch, maker=tree):
    """lookup_transform, lookup_pose, methods and the deprecated alias."""
    rbm = fresh()
    a = ch.choose("frame", FRAMES, free=True)
    b = ch.choose("other", FRAMES, free=True)
    kind = ch.choose("timestamps", ["float", "ns", "int", "ms"], free=True)
    o = maker(rbm, kind)
    ch.state(a, b, kind)
    want = attempt(lambda: o[a].lookup_transform(o[b]))
    err = isinstance(want[0], str)
    same(ch, attempt(lambda: o[a].lookup_transform(b)), want, "method by name")
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = o[a].get_transformation(b)
        except Exception as e:
            r = ("error", type(e).__name__)
    ch.check(any(issubclass(x.category, DeprecationWarning) for x in w), "no deprecation warning")
    same(ch, r, want, "deprecated alias")
    for x, y in named(o, a, b):
        for name in ("lookup_transform", "lookup_pose"):
            f = getattr(rbm, name)
            same(ch, attempt(lambda: f(x, y)), want if err else want[:2], name)
            same(ch, attempt(lambda: f(x, y, return_timestamps=True)), want, name + " with timestamps")
            kw = {"outof": x, "into": y} if name == "lookup_transform" else {"frame": x, "reference": y}
            same(ch, attempt(lambda: f(**kw, as_dataset=False)), want if err else want[:2],
                 name + " by keyword")
            ds = attempt(lambda: f(x, y, as_dataset=True))
            if err:
                same(ch, ds, want, name + " as dataset")
                continue
            ds = ds[0]
            lin, ang = (("translation", "rotation") if name == "lookup_transform"
                        else ("position", "orientation"))
            ch.check(not isinstance(ds, str) and set(ds.data_vars) == {lin, ang}, "variables", lambda: repr(ds))
            td = ("time",) if want[2] is not None else ()
            ch.check(ds[lin].dims == td + ("cartesian_axis",) and ds[ang].dims == td + ("quaternion_axis",),
                     "dims", lambda: repr(ds))
            same(ch, (ds[lin].values, ds[ang].values), want[:2], name + " as dataset")
            labels(ch, ds, want[2], True)
            rf = a if name == "lookup_transform" else b
            attrs(ch, ds[lin], representation_frame=rf, reference_frame=rf, motion_type=lin, units="m")
            attrs(ch, ds[ang], representation_frame=rf, reference_frame=rf, motion_type=ang)
    if not err:
        # the frame's pose is where its origin and axes are transformed to
        same(ch, attempt(lambda: rbm.transform_points(np.zeros(3), b, a)), want[:1], "origin")
        q = attempt(lambda: rbm.transform_quaternions(np.array([1.0, 0, 0, 0]), b, a))[0]
        q = np.asarray(q)
        ch.check(q.shape == want[1].shape and ref.same_quat(q, want[1]), "orientation", cmp(q, want[1]))
    ch.outcome(a, b, kind)


OPTS = {"none": {}, "outliers": {"outlier_thresh": 0.05}, "cutoff": {"cutoff": 0.5},
        "both": {"outlier_thresh": 0.3, "cutoff": 0.7}, "mode": {"mode": "rotation_vector"},
        "mode and cutoff": {"mode": "rotation_vector", "cutoff": 0.5}, "unknown mode": {"mode": "x"}}


def longest_tree(rbm, kind):
    global GRID, GRID2
    keep = GRID, GRID2
    GRID, GRID2 = np.arange(1100) * 0.1, 0.35 + np.arange(1400) * 0.1
    try:
        return tree(rbm, kind)
    finally:
        GRID, GRID2 = keep


def long_tree(rbm, kind):
    """Enough samples for the low-pass filter."""
    global GRID, GRID2
    keep = GRID, GRID2
    GRID, GRID2 = np.arange(60) * 0.1, 0.35 + np.arange(40) * 0.1
    try:
        return tree(rbm, kind)
    finally:
        GRID, GRID2 = keep


def twists(ch):
    rbm = fresh()
    a = ch.choose("frame", ["m2", "c", "m", "d", "s", "world"], free=True)
    b = ch.choose("reference", ["world", None, "s", "m", "d"], free=True)
    c = ch.choose("represented in", [None, "world", "s2", "c"], free=True)
    opts = ch.choose("options", OPTS, free=True)
    kind = ch.choose("timestamps", ["float", "ns", "int"])
    o = (long_tree if "cutoff" in opts else tree)(rbm, kind)
    ch.state(a, b, c, str(opts), kind)
    parent = PARENT.get(a)
    rb = b or parent
    rc = c or rb  # the documented default of the module functions
    lo = {k: v for k, v in opts.items() if k != "mode"}
    ao = {k: v for k, v in opts.items() if k != "outlier_thresh"}
    if rb is None:
        for f in ("lookup_twist", "lookup_linear_velocity", "lookup_angular_velocity"):
            ch.raises(lambda: getattr(rbm, f)(a, b, c), "accepted: frame without parent")
            ch.raises(lambda: getattr(o[a], f)(b, c), "accepted: frame without parent")
        return
    want = attempt(lambda: o[a].lookup_twist(o[rb], o[rc], return_timestamps=True, **opts))
    err = isinstance(want[0], str)
    if b is None and c is None:
        same(ch, attempt(lambda: o[a].lookup_twist(return_timestamps=True, **opts)), want, "method defaults")
        same(ch, attempt(lambda: rbm.lookup_twist(a, return_timestamps=True, **opts)), want, "defaults")
    same(ch, attempt(lambda: o[a].lookup_twist(rb, rc, **opts)), want if err else want[:2], "method by name")
    wl = attempt(lambda: o[a].lookup_linear_velocity(rb, rc, return_timestamps=True, **lo))
    wa = attempt(lambda: o[a].lookup_angular_velocity(rb, rc, return_timestamps=True, **ao))
    if not err:
        # both parts of the twist, on the timestamps they share
        for w, part, n in ((wl, want[0], "linear"), (wa, want[1], "angular")):
            ch.check(not isinstance(w[0], str), n + " part", lambda: repr(w))
            sel = np.isin(np.asarray(w[1]), np.asarray(want[2]))
            same(ch, (np.asarray(w[0])[sel], np.asarray(w[1])[sel]), (part, want[2]), n + " part of the twist")
    same(ch, attempt(lambda: o[a].lookup_linear_velocity(o[rb], o[rc], **lo)),
         wl if isinstance(wl[0], str) else wl[:1], "linear method")
    same(ch, attempt(lambda: o[a].lookup_angular_velocity(o[rb], o[rc], **ao)),
         wa if isinstance(wa[0], str) else wa[:1], "angular method")
    common = dict(representation_frame=rc, reference_frame=rb, moving_frame=a)
    for x, y, z in named(o, a, b, c):
        same(ch, attempt(lambda: rbm.lookup_twist(x, y, z, **opts)), want if err else want[:2], "twist")
        same(ch, attempt(lambda: rbm.lookup_twist(x, reference=y, represent_in=z, return_timestamps=True, **opts)),
             want, "twist with timestamps")
        r = attempt(lambda: rbm.lookup_twist(x, y, z, as_dataset=True, **opts))
        if err:
            same(ch, r, want, "twist as dataset")
        else:
            ds = r[0]
            ch.check(not isinstance(ds, str) and set(ds.data_vars) == {"linear_velocity", "angular_velocity"},
                     "variables", lambda: repr(ds))
            same(ch, (ds.linear_velocity.values, ds.angular_velocity.values), want[:2], "twist as dataset")
            labels(ch, ds, want[2], False)
            attrs(ch, ds.linear_velocity, motion_type="linear_velocity", units="m/s", **common)
            attrs(ch, ds.angular_velocity, motion_type="angular_velocity", units="rad/s", **common)
            ch.check(ds.linear_velocity.dims == ds.angular_velocity.dims == ("time", "cartesian_axis"), "dims")
        for n, w, op, u in (("linear", wl, lo, "m/s"), ("angular", wa, ao, "rad/s")):
            f = getattr(rbm, f"lookup_{n}_velocity")
            e = isinstance(w[0], str)
            same(ch, attempt(lambda: f(x, y, z, **op)), w if e else w[:1], n)
            same(ch, attempt(lambda: f(x, y, z, return_timestamps=True, **op)), w, n + " with timestamps")
            r = attempt(lambda: f(x, y, z, as_dataarray=True, **op))
            if e:
                same(ch, r, w, n + " as dataarray")
                continue
            da = r[0]
            ch.check(getattr(da, "dims", None) == ("time", "cartesian_axis"), "dims", lambda: repr(da))
            ch.check(da.name == n + "_velocity", "name", da.name)
            same(ch, (da.values,), w[:1], n + " as dataarray")
            labels(ch, da, w[1], False)
            attrs(ch, da, motion_type=n + "_velocity", units=u, **common)
    ch.outcome(a, b, c, str(opts), err)


LAY = {"(3,)": ((), None), "(t, 3)": ((7,), 0), "(t, 2, 3)": ((7, 2), 0), "(2, t, 3)": ((2, 7), 1),
       "(2, 3)": ((2,), None)}


def arrays(ch):
    """transform_*: function and method, frames by name and object, arrays and DataArrays."""
    import xarray as xr

    rbm = fresh()
    fn = ch.choose("function", ["transform_points", "transform_vectors", "transform_quaternions",
                                "transform_angular_velocity", "transform_linear_velocity"], free=True)
    what = third = None
    vel = "velocity" in fn
    if vel:
        what = ch.choose("what", ["reference_frame", "moving_frame", "representation_frame"], free=True)
        if "linear" in fn and what != "representation_frame":
            third = ch.choose("third frame", ["s", "m", "c"], free=True)
    a = ch.choose("out of", ["m2", "s2", "d", "world", "c"], free=True)
    b = ch.choose("into", ["world", "m", "s", "m2", "d"], free=True)
    lay = ch.choose("layout", list(LAY), free=True)
    kind = ch.choose("timestamps", ["float", "ns", "int"])
    o = tree(rbm, kind)
    shape, ta = LAY[lay]
    n = 4 if "quaternions" in fn else 3
    k = int(np.prod(shape))
    arr = np.stack([np.sin(np.arange(k) * (1 + c) + 0.3 * c) + 0.1 * c for c in range(n)], -1)
    if n == 4:
        arr = arr / np.linalg.norm(arr, axis=-1, keepdims=True)
    arr = arr.reshape(shape + (n,))
    g = np.linspace(0.7, 2.4, 7)
    ts = None if ta is None else stamps(np.round(g, 1), kind)
    ch.state(fn, a, b, lay, kind, what, third)
    kw = {} if ts is None else {"timestamps": ts, "time_axis": ta}
    tk = "moving_frame" if what == "reference_frame" else "reference_frame"

    def extra(t):
        return {**({"what": what} if what else {}), **({tk: t} if third else {})}

    want = attempt(lambda: getattr(o[a], fn)(arr, o[b], return_timestamps=True,
                                             **extra(third and o[third]), **kw))
    err = isinstance(want[0], str)
    f = getattr(rbm, fn)
    short = want if err else want[:1]
    for x, y, z in named(o, a, b, third):
        same(ch, attempt(lambda: f(arr, y, x, return_timestamps=True, **extra(z), **kw)), want, "function")
        same(ch, attempt(lambda: f(arr, into=y, outof=x, axis=-1, **extra(z), **kw)), short,
             "function without timestamps")
        same(ch, attempt(lambda: getattr(o[a], fn)(arr, y, axis=arr.ndim - 1, **extra(z), **kw)), short, "method")
    dims = [f"d{i}" for i in range(arr.ndim - 1)] + ["axis"]
    attr = what or ("representation_frame" if fn == "transform_vectors" else "reference_frame")
    if ts is not None:
        dims[ta] = "t"
        da = xr.DataArray(arr, {"t": ts, "axis": list("wxyz")[-n:]}, dims, "v", {"note": 1})
        kd = {"timestamps": "t", "dim": "axis"}
    else:
        da = xr.DataArray(arr, {"axis": list("wxyz")[-n:]}, dims, "v", {"note": 1})
        kd = {"timestamps": False, "dim": "axis"}
    tagged = da.copy(deep=True)
    tagged.attrs[attr] = a
    ways = list(named(o, a, b, third))
    for x, y, z in (ways[0], ways[-1]):
        for inp, out in ((da, x), (tagged, None), (tagged, x)):
            r = attempt(lambda: f(inp, y, out, **extra(z), **kd))
            if err:
                same(ch, r, want, "dataarray")
                continue
            got = r[0]
            ch.check(isinstance(got, xr.DataArray), "type", lambda: repr(r))
            td = "time" if ts is None else "t"
            same(ch, (got.values,), short, "dataarray")
            if want[1] is not None:
                ch.check(td in got.coords, "time", lambda: repr(got))
                same(ch, (got[td].values,), (want[1],), "time")
            ch.check(got.attrs.get(attr) == b and got.attrs.get("representation_frame") == b
                     and got.attrs.get("note") == 1, "attributes", lambda: f"{got.attrs}")
            ch.check(list(got["axis"].values) == list("wxyz")[-n:], "labels", lambda: repr(got))
    ch.outcome(fn, a, b, err)


MATS = {"identity": np.eye(3, dtype=int)}
for _i, _p in enumerate(itertools.permutations(range(3))):
    for _s in itertools.product([1, -1], repeat=3):
        _m = np.zeros((3, 3), int)
        for _r, _c in enumerate(_p):
            _m[_r, _c] = _s[_r]
        if round(np.linalg.det(_m)) == 1:
            MATS.setdefault(f"cube {_i}{_s}", _m)
for _k, (_ax, _an) in enumerate(itertools.product(([1, 2, 3], [0, 0, 1], [-1, 1e-3, 0]),
                                                  (1e-9, 0.3, 2.0, np.pi - 1e-7, np.pi))):
    MATS[f"generic {_k}"] = ref.qmat(ref.axang(_ax, np.asarray(_an)))


def matrices(ch):
    rbm = fresh()
    name = ch.choose("matrix", list(MATS), free=True)
    inverse = ch.flag("inverse", free=True)
    cont = ch.choose("container", ["array", "list", "float32", "fortran", "read only"])
    by = ch.choose("parent", ["object", "name"])
    mat = MATS[name]
    ch.state(name, inverse, cont, by)
    p = rbm.ReferenceFrame("p")
    p.register()
    arg = {"array": np.array(mat), "list": mat.tolist(), "float32": mat.astype("float32"),
           "fortran": np.asfortranarray(mat), "read only": np.array(mat)}[cont]
    if cont == "read only":
        arg.flags.writeable = False
    f = rbm.ReferenceFrame.from_rotation_matrix(arg, p if by == "object" else "p", name="f", inverse=inverse)
    want = np.array(mat, float)
    want = want.T if inverse else want
    v = np.array([[0.5, -2, 3], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
    tol = 1e-6 if cont == "float32" else 2e-8
    got = f.transform_points(v, p)
    ch.check(np.allclose(got, v @ want.T, atol=tol * 4), "points", cmp(got, v @ want.T))
    got = p.transform_vectors(v, f)
    ch.check(np.allclose(got, v @ want, atol=tol * 4), "vectors", cmp(got, v @ want))
    t, q, ts = f.lookup_transform(p)
    ch.check(ts is None and np.array_equal(t, np.zeros(3)) and q.shape == (4,), "static without translation")
    ch.check(f.name == "f" and f.parent is p and f in p.children, "place in the tree")
    ch.check("f" not in rbm.registry, "registered")
    # equivalent to the frame built from the quaternion
    q0 = f.lookup_transform(p)[1]
    g = rbm.ReferenceFrame("g", p, rotation=q0)
    same(ch, f.lookup_transform(g)[:2], (np.zeros(3), np.array([1.0, 0, 0, 0])), "equivalent frame")
    ch.step(4)
    ch.outcome(np.round(q, 5).tobytes())


def constructors(ch):
    import xarray as xr

    rbm = fresh()
    how = ch.choose("constructor", ["dataset", "translation", "rotation", "register_frame"], free=True)
    kind = ch.choose("timestamps", ["float", "ns", "int", "ms"], free=True)
    inverse = ch.flag("inverse", free=True)
    discrete = ch.flag("discrete", free=True)
    n = ch.choose("samples", [8, 1, 3, 4], free=True)
    by = ch.choose("parent", ["object", "name"])
    spell = ch.choose("spelling", ["keywords", "positional"])
    tcoord = ch.choose("timestamps are", ["index", "other coordinate", "variable"])
    o = tree(rbm, kind)
    g = GRID2[0] + 0.25 * np.arange(n)
    t, q = motion(1, g)
    ts = stamps(g, kind)
    ch.state(how, kind, inverse, discrete, n, by, spell, tcoord)
    dim = "time" if tcoord == "index" else "sample"
    tn = {"index": "time", "other coordinate": "stamp", "variable": "when"}[tcoord]
    ds = xr.Dataset({"pos": ((dim, "cartesian_axis"), t, {"units": "m"}),
                     "rot": ((dim, "quaternion_axis"), q), "junk": 5,
                     "translation": ((dim, "cartesian_axis"), t * 100)},
                    {"cartesian_axis": list("xyz"), "quaternion_axis": list("wxyz")})
    ds = ds.assign_coords({tn: (dim, ts)})
    if tcoord == "variable":
        ch.assume(how == "dataset")
        ds = ds.reset_coords(tn)
    keep = ds.copy(deep=True)
    par = o["m"] if by == "object" else "m"
    RF = rbm.ReferenceFrame
    kw = dict(name="f", inverse=inverse, discrete=discrete)
    pos = ("f", inverse, discrete)
    want = dict(translation=t, rotation=q)
    if how == "dataset":
        f = (RF.from_dataset(ds, "pos", "rot", tn, par, **kw) if spell == "keywords"
             else RF.from_dataset(ds, "pos", "rot", tn, par, *pos))
    elif how == "translation":
        want = dict(translation=t)
        f = (RF.from_translation_dataarray(ds.pos, tn, par, **kw) if spell == "keywords"
             else RF.from_translation_dataarray(ds.pos, tn, par, *pos))
    elif how == "rotation":
        want = dict(rotation=q)
        f = (RF.from_rotation_dataarray(ds.rot, tn, par, **kw) if spell == "keywords"
             else RF.from_rotation_dataarray(ds.rot, tn, par, *pos))
    else:
        if spell == "keywords":
            rbm.register_frame("f", par, t, q, ts, inverse=inverse, discrete=discrete)
        else:
            rbm.register_frame("f", par, t, q, ts, inverse, discrete)
        f = rbm.registry["f"]
    ch.check(ds.identical(keep), "input modified")
    h = RF("h", o["m"], timestamps=ts, inverse=inverse, discrete=discrete, **want)
    ch.check(isinstance(f, RF) and f.name == "f" and f.parent is o["m"] and f in o["m"].children,
             "place in the tree")
    ch.check(("f" in rbm.registry) == (how == "register_frame"), "registered")
    ch.check(bool(f.discrete) == discrete, "discrete")
    pts = np.stack([np.arange(5.0), -np.arange(5.0), np.ones(5)], -1)
    pt = stamps(np.round(np.linspace(0.7, 1.2, 5), 2), kind)
    for x in ("m", "world", "s", "m2", "d"):
        same(ch, attempt(lambda: f.lookup_transform(x)), attempt(lambda: h.lookup_transform(x)), "transform to " + x)
        same(ch, attempt(lambda: o[x].lookup_transform(f)), attempt(lambda: o[x].lookup_transform(h)),
             "transform from " + x)
        same(ch, attempt(lambda: f.transform_points(pts, x, timestamps=pt, return_timestamps=True)),
             attempt(lambda: h.transform_points(pts, x, timestamps=pt, return_timestamps=True)), "points to " + x)
    ch.outcome(how, kind, inverse, discrete, n)


def from_results(ch):
    """Lookup results rebuild an equivalent frame; labelled results feed transforms."""
    rbm = fresh()
    a = ch.choose("frame", ["m2", "c", "m", "d"], free=True)
    b = ch.choose("reference", ["world", "s2", "s", "m"], free=True)
    kind = ch.choose("timestamps", ["float", "ns", "int"], free=True)
    how = ch.choose("lookup", ["pose", "transform", "inverse pose"], free=True)
    o = tree(rbm, kind)
    ch.state(a, b, kind, how)
    ch.assume(a != b)
    RF = rbm.ReferenceFrame
    want = o[a].lookup_transform(b)
    ch.assume(want[2] is not None)
    if how == "pose":
        ds = rbm.lookup_pose(a, b, as_dataset=True)
        f = RF.from_dataset(ds, "position", "orientation", "time", b, "f")
    elif how == "transform":
        ds = rbm.lookup_transform(a, b, as_dataset=True)
        f = RF.from_dataset(ds, "translation", "rotation", "time", b, "f")
    else:
        ds = rbm.lookup_pose(b, a, as_dataset=True)
        f = RF.from_dataset(ds, "position", "orientation", "time", b, "f", inverse=True)
        t, q, ts = o[b].lookup_transform(a)
        q = ref.qinv(q)
        want = -ref.rot(q, t), q, ts
    got = f.lookup_transform(b)
    ch.check(ref.same_quat(got[1], want[1]), "rotation", cmp(got[1], want[1]))
    same(ch, (got[0], got[2]), (want[0], want[2]), "rebuilt frame")
    if how == "pose":
        # the pose knows its reference frame
        x = rbm.transform_points(ds.position, into="world", dim="cartesian_axis", timestamps="time")
        w = rbm.transform_points(want[0], "world", b, timestamps=want[2], return_timestamps=True)
        same(ch, (x.values, x.time.values), w, "position of the dataset")
        ch.check(x.attrs["reference_frame"] == "world", "attributes")
    ch.outcome(a, b, kind, how)


def rejected(ch):
    rbm = fresh()
    tree(rbm, "float")
    RF = rbm.ReferenceFrame
    iso = RF("iso")
    cases = {}
    for f in ("lookup_transform", "lookup_pose", "lookup_twist", "lookup_linear_velocity",
              "lookup_angular_velocity"):
        fn = getattr(rbm, f)
        cases[f + " unknown frame"] = lambda fn=fn: fn("nope", "world")
        cases[f + " unknown reference"] = lambda fn=fn: fn("m", "nope")
        cases[f + " not connected"] = lambda fn=fn: fn("m", iso)
        cases[f + " no frame"] = lambda fn=fn: fn(None, "world")
        cases[f + " number"] = lambda fn=fn: fn(5, "world")
        if "trans" not in f and "pose" not in f:
            cases[f + " static"] = lambda fn=fn: fn("s2", "world")
            cases[f + " itself"] = lambda fn=fn: fn("m", "m")
            cases[f + " unknown representation"] = lambda fn=fn: fn("m", "world", "nope")
    for s in [(4, 4), (3,), (2, 3), (3, 2), (1, 3, 3), (9,), (3, 3, 1)]:
        cases[f"matrix {s}"] = lambda s=s: RF.from_rotation_matrix(np.ones(s), "world")
    cases["matrix, unknown parent"] = lambda: RF.from_rotation_matrix(np.eye(3), "nope")
    cases["matrix list"] = lambda: RF.from_rotation_matrix([[1, 0], [0, 1]], "world")
    name = ch.choose("call", list(cases), free=True)
    ch.state(name)
    before = {k: (v, v.parent, v.children) for k, v in rbm.registry.items()}
    ch.raises(cases[name], "accepted: " + name)
    ch.check(before == {k: (v, v.parent, v.children) for k, v in rbm.registry.items()}, "tree changed")


def scenarios(tier):
    b = 0 if tier == "quick" else 2
    out = [Scenario("transforms", transforms),
           Scenario("long series", lambda ch: transforms(ch, longest_tree)), Scenario("twists", twists, 0 if tier == "quick" else 1),
           Scenario("arrays", arrays, 0 if tier == "quick" else 1), Scenario("matrices", matrices, 1 + b),
           Scenario("constructors", constructors, 1 + b), Scenario("from results", from_results),
           Scenario("rejected", rejected)]
    return out
