"""Queries are pure: inputs, frames and registry never change."""
import contextlib
import io

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import fresh

ASSUMPTIONS = [
    "one shared set of arguments and frames; single thread",
    "results are mutated through every writable array reachable from them",
]

N = 12


def world():
    """A frame tree and a set of arguments shared by all queries."""
    rbm = fresh()
    import xarray as xr

    e = {"rbm": rbm, "xr": xr}
    ts = 0.1 * np.arange(N)
    ts2 = 0.1 * np.arange(N) + 0.25
    ang = 0.4 * ts
    src = dict(
        t_s=np.array([1.0, 2, 3]), q_s=ref.axang((1, 2, 2), 0.7),
        t_m=np.stack((ts, 2 - ts, ts**2), 1),
        q_m=ref.axang((0, 0, 1), ang), ts_m=ts.copy(),
        t_n=np.stack((1 + ts2, ts2, 0 * ts2), 1), q_n=ref.axang((1, 0, 1), ang), ts_n=ts2.copy(),
        t_d=np.arange(9.0).reshape(3, 3), q_d=ref.axang((0, 1, 0), np.array([0.1, 0.5, 1.0])),
        ts_d=np.array([0.2, 0.45, 0.9]),
        ts_k=np.datetime64("2020-01-01", "ns") + np.arange(N) * np.timedelta64(100, "ms"),
    )
    rbm.register_frame("world")
    rbm.register_frame("s", "world", src["t_s"], src["q_s"])
    rbm.register_frame("b", "world")
    rbm.register_frame("m", "s", src["t_m"], src["q_m"], src["ts_m"])
    rbm.register_frame("n", "m", src["t_n"], src["q_n"], src["ts_n"])
    rbm.register_frame("d", "world", src["t_d"], src["q_d"], src["ts_d"], discrete=True)
    rbm.register_frame("k", "world", src["t_m"], src["q_m"], src["ts_k"])
    rbm.register_frame("i", "world", src["t_s"], src["q_s"], inverse=True)
    rbm.register_frame("r", "world", rotation=src["q_m"], timestamps=src["ts_m"])
    rbm.register_frame("t", "world", translation=src["t_m"], timestamps=src["ts_m"])
    a = dict(src)
    a["p1"] = np.array([0.5, -1.0, 2.0])
    a["p"] = np.stack((1 + ts, ts - 2, 0.5 * ts), 1)
    a["p3"] = np.arange(N * 6.0).reshape(N, 2, 3)
    a["pT"] = np.ascontiguousarray(a["p"].T)
    a["ts_a"] = ts + 0.05
    a["q1"] = ref.axang((1, 1, 0), 0.3)
    a["q"] = ref.axang((0, 1, 0), 0.2 * ts)
    a["q"][1::2] *= -1
    a["qn"] = a["q"].copy()
    a["qn"][4] = np.nan
    a["p2"] = a["p"][:, :2].copy()
    a["rpy"] = a["p"] / 3
    a["mat"] = ref.qmat(a["q1"])
    a["guess"] = (np.array([0.01, 0, 0]), np.array([1.0, 0, 0, 0]))
    tc = {"time": a["ts_a"].copy(), "label": ("time", [f"l{i}" for i in range(N)]),
          "num": ("time", np.arange(N) * 1.0), "run": 4}
    attrs = {"units": "m", "list": [1, 2]}
    a["da_p"] = xr.DataArray(a["p"].copy(), dict(tc, cartesian_axis=list("xyz")),
                             ("time", "cartesian_axis"), "p",
                             dict(attrs, representation_frame="m", reference_frame="world"))
    a["da_pt"] = a["da_p"].transpose().copy(deep=True)
    a["da_q"] = xr.DataArray(a["q"].copy(), dict(tc, quaternion_axis=list("wxyz")),
                             ("time", "quaternion_axis"), "q", dict(attrs))
    a["da_v"] = xr.DataArray(a["p"].copy(), dict(tc, cartesian_axis=list("xyz")),
                             ("time", "cartesian_axis"), "v",
                             dict(attrs, representation_frame="world", reference_frame="s",
                                  moving_frame="m"))
    a["ds"] = xr.Dataset(
        {"position": (("time", "cartesian_axis"), a["t_m"].copy()),
         "orientation": (("time", "quaternion_axis"), a["q_m"].copy())},
        {"time": a["ts_m"].copy()}, {"title": "x"})
    import matplotlib.pyplot as plt

    e["a"] = a
    e["plt"] = plt
    e["ax"] = None
    return e


def ops():
    """name -> (fn(env), returns arrays)"""
    o = {}

    def add(name, fn, kind="query"):
        assert name not in o
        o[name] = fn
        fn.kind = kind

    pairs = [("s", "world"), ("world", "s"), ("m", "world"), ("m", "s"), ("s", "m"),
             ("n", "b"), ("d", "world"), ("world", "d"), ("d", "m"), ("b", "world"),
             ("world", "world"), ("i", "s"), ("k", "world"), ("world", "k"), ("r", "t"),
             ("t", "world"), ("world", "r")]
    for f, g in pairs:
        add(f"lookup_transform({f},{g})",
            lambda e, f=f, g=g: e["rbm"].lookup_transform(f, g, return_timestamps=True))
        add(f"frame {f}.lookup_transform({g})",
            lambda e, f=f, g=g: e["rbm"].registry[f].lookup_transform(g))
    for f, g in [("s", "world"), ("m", "s"), ("d", "world"), ("k", "world"), ("t", "world")]:
        add(f"lookup_transform({f},{g}) dataset",
            lambda e, f=f, g=g: e["rbm"].lookup_transform(f, g, as_dataset=True))
        add(f"lookup_pose({f},{g}) dataset",
            lambda e, f=f, g=g: e["rbm"].lookup_pose(f, g, as_dataset=True))
        add(f"lookup_pose({f},{g})", lambda e, f=f, g=g: e["rbm"].lookup_pose(f, g))
        add(f"get_transformation({f},{g})",
            lambda e, f=f, g=g: e["rbm"].registry[f].get_transformation(g))
    for f, g in [("m", "s"), ("m", "world"), ("n", "b"), ("s", "m"), ("k", "world"), ("r", "t")]:
        add(f"lookup_twist({f},{g}) dataset",
            lambda e, f=f, g=g: e["rbm"].lookup_twist(f, g, as_dataset=True))
        add(f"lookup_twist({f},{g})",
            lambda e, f=f, g=g: e["rbm"].lookup_twist(f, g, return_timestamps=True))
        add(f"lookup_linear_velocity({f},{g})",
            lambda e, f=f, g=g: e["rbm"].lookup_linear_velocity(
                f, g, outlier_thresh=1e3, return_timestamps=True))
        add(f"lookup_angular_velocity({f},{g})",
            lambda e, f=f, g=g: e["rbm"].lookup_angular_velocity(f, g, mode="rotation_vector",
                                                                 as_dataarray=True))
        add(f"frame {f}.lookup_twist({g})",
            lambda e, f=f, g=g: e["rbm"].registry[f].lookup_twist(g, return_timestamps=True))
    add("frame s.lookup_twist(world) static",
        lambda e: e["rbm"].registry["s"].lookup_twist("world", allow_static=True,
                                                      return_timestamps=True))
    for what, one, many in [("points", "p1", "p"), ("vectors", "p1", "p"),
                            ("quaternions", "q1", "q")]:
        for f, g in [("s", "world"), ("b", "world"), ("world", "world"), ("m", "world"),
                     ("d", "world")]:
            add(f"transform_{what} 1 {f}->{g}",
                lambda e, w=what, f=f, g=g, x=one: getattr(e["rbm"], "transform_" + w)(
                    e["a"][x], into=g, outof=f, return_timestamps=True))
            add(f"transform_{what} N {f}->{g}",
                lambda e, w=what, f=f, g=g, x=many: getattr(e["rbm"], "transform_" + w)(
                    e["a"][x], into=g, outof=f, timestamps=e["a"]["ts_a"],
                    return_timestamps=True))
        add(f"frame m.transform_{what} N",
            lambda e, w=what, x=many: getattr(e["rbm"].registry["m"], "transform_" + w)(
                e["a"][x], "world", timestamps=e["a"]["ts_m"], return_timestamps=True))
    add("transform_points 3d", lambda e: e["rbm"].transform_points(
        e["a"]["p3"], into="world", outof="m", timestamps=e["a"]["ts_m"]))
    add("transform_points transposed", lambda e: e["rbm"].transform_points(
        e["a"]["pT"], into="world", outof="m", axis=0, time_axis=1,
        timestamps=e["a"]["ts_m"]))
    for f, g in [("m", "world"), ("s", "world"), ("d", "b"), ("world", "world")]:
        add(f"transform_points DataArray {f}->{g}", lambda e, f=f, g=g: e["rbm"].transform_points(
            e["a"]["da_p"], into=g, outof=f, dim="cartesian_axis", timestamps="time"))
    add("transform_points DataArray attrs", lambda e: e["rbm"].transform_points(
        e["a"]["da_p"], into="world", dim="cartesian_axis", timestamps="time"))
    add("transform_points DataArray transposed", lambda e: e["rbm"].transform_points(
        e["a"]["da_pt"], into="world", outof="m", dim="cartesian_axis", timestamps="time"))
    add("transform_vectors DataArray no time", lambda e: e["rbm"].transform_vectors(
        e["a"]["da_p"], into="world", outof="s", dim="cartesian_axis", timestamps=False))
    add("transform_quaternions DataArray", lambda e: e["rbm"].transform_quaternions(
        e["a"]["da_q"], into="world", outof="n", dim="quaternion_axis", timestamps="time"))
    for w in ("reference_frame", "moving_frame", "representation_frame"):
        add(f"transform_angular_velocity {w}",
            lambda e, w=w: e["rbm"].transform_angular_velocity(
                e["a"]["p"], into="world", outof="m", what=w, timestamps=e["a"]["ts_m"],
                return_timestamps=True))
        add(f"transform_angular_velocity {w} DataArray",
            lambda e, w=w: e["rbm"].transform_angular_velocity(
                e["a"]["da_v"], into="n", what=w, dim="cartesian_axis", timestamps="time"))
    add("transform_angular_velocity static", lambda e: e["rbm"].transform_angular_velocity(
        e["a"]["p"], into="world", outof="s", what="reference_frame"))
    add("transform_linear_velocity reference", lambda e: e["rbm"].transform_linear_velocity(
        e["a"]["p"], into="world", outof="m", what="reference_frame", moving_frame="n",
        timestamps=e["a"]["ts_m"], return_timestamps=True))
    add("transform_linear_velocity moving", lambda e: e["rbm"].transform_linear_velocity(
        e["a"]["p"], into="s", outof="m", what="moving_frame", reference_frame="world",
        timestamps=e["a"]["ts_m"], return_timestamps=True))
    add("transform_linear_velocity representation",
        lambda e: e["rbm"].transform_linear_velocity(
            e["a"]["da_v"], into="m", what="representation_frame", dim="cartesian_axis",
            timestamps="time"))
    for into, x in [("spherical", "p"), ("cartesian", "p"), ("polar", "p2"), ("cartesian", "p2")]:
        for src in ("cartesian", "spherical", "polar"):
            if src == into or (x == "p2") != ("polar" in (into, src)) or {
                    src, into} == {"polar", "spherical"}:
                continue
            add(f"transform_coordinates {src}->{into}",
                lambda e, i=into, s=src, x=x: e["rbm"].transform_coordinates(
                    e["a"][x], into=i, outof=s))
    add("transform_coordinates DataArray", lambda e: e["rbm"].transform_coordinates(
        e["a"]["da_p"], into="spherical", outof="cartesian", dim="cartesian_axis"))
    for x in ("p", "da_p"):
        add(f"transform_coordinates unchanged {x}", lambda e, x=x: rejects(
            lambda: e["rbm"].transform_coordinates(e["a"][x], into="cartesian",
                                                   outof="cartesian")))
    add("cartesian_to_spherical", lambda e: e["rbm"].cartesian_to_spherical(e["a"]["p"]))
    add("spherical_to_cartesian", lambda e: e["rbm"].spherical_to_cartesian(e["a"]["p"]))
    add("polar_to_cartesian", lambda e: e["rbm"].polar_to_cartesian(e["a"]["p2"]))
    add("cartesian_to_polar", lambda e: e["rbm"].cartesian_to_polar(e["a"]["p2"]))
    add("qinv", lambda e: e["rbm"].qinv(e["a"]["q"]))
    add("qmul", lambda e: e["rbm"].qmul(e["a"]["q"], e["a"]["q_m"]))
    add("qmul one", lambda e: e["rbm"].qmul(e["a"]["q1"], e["a"]["q_s"]))
    add("qmean", lambda e: e["rbm"].qmean(e["a"]["q"]))
    add("qmean axis", lambda e: e["rbm"].qmean(e["a"]["q"].reshape(2, 6, 4), 1))
    add("qinterp", lambda e: e["rbm"].qinterp(e["a"]["q"], e["a"]["ts_m"], e["a"]["ts_n"][:5]))
    add("qinterp same", lambda e: e["rbm"].qinterp(e["a"]["q"], e["a"]["ts_m"], e["a"]["ts_m"]))
    add("rotate_vectors", lambda e: e["rbm"].rotate_vectors(e["a"]["q"], e["a"]["p"]))
    add("rotate_vectors all", lambda e: e["rbm"].rotate_vectors(e["a"]["q1"], e["a"]["p"],
                                                                one_to_one=False))
    add("from_euler_angles", lambda e: e["rbm"].from_euler_angles(e["a"]["rpy"]))
    add("from_euler_angles two", lambda e: e["rbm"].from_euler_angles(
            roll=e["a"]["ts_m"], yaw=e["a"]["ts_n"]))
    add("estimate_linear_velocity", lambda e: e["rbm"].estimate_linear_velocity(
        e["a"]["p"], timestamps=e["a"]["ts_m"], outlier_thresh=1e-3))
    add("estimate_linear_velocity plain", lambda e: e["rbm"].estimate_linear_velocity(
        e["a"]["p"], timestamps=e["a"]["ts_m"]))
    add("estimate_linear_velocity DataArray", lambda e: e["rbm"].estimate_linear_velocity(
        e["a"]["da_p"], dim="cartesian_axis", timestamps="time"))
    add("estimate_angular_velocity", lambda e: e["rbm"].estimate_angular_velocity(
        e["a"]["q"], timestamps=e["a"]["ts_m"], outlier_thresh=1e3))
    add("estimate_angular_velocity nan", lambda e: e["rbm"].estimate_angular_velocity(
        e["a"]["qn"], timestamps=e["a"]["ts_m"]))
    add("estimate_angular_velocity rv", lambda e: e["rbm"].estimate_angular_velocity(
        e["a"]["q"], timestamps=e["a"]["ts_m"], mode="rotation_vector"))
    add("estimate_angular_velocity DataArray", lambda e: e["rbm"].estimate_angular_velocity(
        e["a"]["da_q"], dim="quaternion_axis", timestamps="time"))
    add("shortest_arc_rotation", lambda e: e["rbm"].shortest_arc_rotation(
        e["a"]["p"], e["a"]["t_m"]))
    add("shortest_arc_rotation DataArray", lambda e: e["rbm"].shortest_arc_rotation(
        e["a"]["da_p"], e["a"]["t_m"], dim="cartesian_axis"))
    add("best_fit_rotation", lambda e: e["rbm"].best_fit_rotation(e["a"]["p"], e["a"]["t_m"]))
    add("best_fit_transform", lambda e: e["rbm"].best_fit_transform(e["a"]["p"], e["a"]["t_m"]))
    add("best_fit_transform DataArray", lambda e: e["rbm"].best_fit_transform(
        e["a"]["da_p"], e["a"]["da_p"], dim="cartesian_axis"))
    add("iterative_closest_point", lambda e: e["rbm"].iterative_closest_point(
        e["a"]["p"], e["a"]["t_m"], init_transform=e["a"]["guess"], max_iterations=3))
    add("accessor qinterp", lambda e: e["a"]["da_q"].rbm.qinterp(time=e["a"]["ts_a"][2:5] + 0.01))
    add("accessor qinv", lambda e: e["a"]["da_q"].rbm.qinv())
    add("is_dataarray", lambda e: e["rbm"].utils.is_dataarray(e["a"]["da_p"], ["units"]))
    add("is_dataset", lambda e: e["rbm"].utils.is_dataset(e["a"]["ds"], ["title"]))
    add("render_tree", lambda e: printed(lambda: e["rbm"].render_tree("world")))
    add("str", lambda e: str(e["rbm"].registry["s"]))
    add("from_dataset", lambda e: detached(e["rbm"].ReferenceFrame.from_dataset(
        e["a"]["ds"], "position", "orientation", "time", "world",
        inverse=True)), "build")
    add("from_rotation_matrix", lambda e: detached(
        e["rbm"].ReferenceFrame.from_rotation_matrix(e["a"]["mat"], "world")), "build")
    add("plot reference frame", lambda e: [np.array(x._verts3d) for x in
        e["rbm"].plot.reference_frame("s", "world", ax=axes(e))], "plot")
    add("plot points", lambda e: [np.array(x.get_data_3d()) for x in
        e["rbm"].plot.points(e["a"]["p"], ax=axes(e))], "plot")
    add("plot vectors", lambda e: [np.array(e["rbm"].plot.vectors(
        e["a"]["p"], e["a"]["t_m"], ax=axes(e))._segments3d)], "plot")
    add("plot quaternions", lambda e: [np.array(x._segments3d) for x in
        e["rbm"].plot.quaternions(e["a"]["q"], e["a"]["p"], ax=axes(e))], "plot")
    # rejected queries must not leave anything behind either
    add("rejected: unknown frame", lambda e: rejects(lambda: e["rbm"].lookup_transform(
        "s", "nope")))
    add("rejected: static twist", lambda e: rejects(lambda: e["rbm"].lookup_twist("s", "world")))
    add("rejected: shape", lambda e: rejects(lambda: e["rbm"].transform_points(
        e["a"]["q"], into="world", outof="m", timestamps=e["a"]["ts_m"])))
    add("rejected: disjoint times", lambda e: rejects(lambda: e["rbm"].transform_points(
        e["a"]["p"], into="world", outof="m", timestamps=e["a"]["ts_m"] + 100)))
    return o


def axes(e):
    if e["ax"] is None:
        e["ax"] = e["plt"].figure(figsize=(2, 2)).add_subplot(111, projection="3d")
    return e["ax"]


def detached(rf):
    r = rf.lookup_transform("world")
    rf.parent = None
    return r


def printed(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn()
    return buf.getvalue()


def rejects(fn):
    try:
        return fn()
    except Exception as x:
        return f"rejected {type(x).__name__}"


def arrays_of(x, out=None):
    """Every numpy array reachable from a result."""
    import xarray as xr

    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, xr.DataArray):
        out.append(x.data)
        for c in x.coords:
            out.append(x.coords[c].values)
    elif isinstance(x, xr.Dataset):
        for v in x.variables:
            out.append(x[v].values)
    elif isinstance(x, (tuple, list)):
        for y in x:
            arrays_of(y, out)
    return out


def attrs_of(x, out=None):
    import xarray as xr

    out = [] if out is None else out
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        out.append(x.attrs)
        for c in x.coords:
            out.append(x.coords[c].attrs)
        if isinstance(x, xr.Dataset):
            for v in x.data_vars:
                out.append(x[v].attrs)
    elif isinstance(x, (tuple, list)):
        for y in x:
            attrs_of(y, out)
    return out


def indexes_of(args):
    """Arrays behind the indexes of xarray arguments (immutable, shared by xarray)."""
    import xarray as xr

    return [x.indexes[i].values for x in args if isinstance(x, (xr.DataArray, xr.Dataset))
            for i in x.indexes]


def mutate(res, args):
    shared = indexes_of(args)
    for arr in arrays_of(res):
        if any(np.shares_memory(arr, i) for i in shared):
            continue
        if not arr.flags.writeable or arr.size == 0:
            continue
        try:
            if arr.dtype.kind in "fiu":
                arr[...] = -77
            elif arr.dtype.kind == "M":
                arr[...] = np.datetime64("1999-01-01")
            elif arr.dtype.kind in "UO":
                arr[...] = "zz"
        except (ValueError, TypeError):
            pass
    for at in attrs_of(res):
        at["mutated"] = 1


def canon(x):
    """A comparable deep copy of a result."""
    import xarray as xr

    if isinstance(x, np.ndarray):
        if x.dtype.kind == "V" or x.dtype.name == "quaternion":
            x = x.view(float)
        return ("a", x.shape, x.dtype.str, x.tobytes() if x.dtype.kind != "O" else repr(x))
    if isinstance(x, xr.DataArray):
        return ("da", x.dims, x.name, canon(np.asarray(x.data)), repr(sorted(x.attrs.items(), key=str)),
                tuple((str(c), x.coords[c].dims, canon(np.asarray(x.coords[c].values)),
                       repr(x.coords[c].attrs))
                      for c in sorted(x.coords, key=str)))
    if isinstance(x, xr.Dataset):
        return ("ds", tuple((str(v), canon(x[v].copy())) for v in sorted(x.variables, key=str)),
                repr(sorted(x.attrs.items(), key=str)))
    if isinstance(x, (tuple, list)):
        return (type(x).__name__,) + tuple(canon(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, canon(x[k])) for k in sorted(x))
    return repr(x)


def snapshot_frames(e):
    reg = e["rbm"].registry
    out = []
    for n in list(reg):
        f = reg[n]
        out.append((n, id(f), f.name, None if f.parent is None else f.parent.name,
                    tuple(sorted(str(c.name) for c in f.children if c.name is not None)),
                    canon(f.translation), canon(f.rotation), canon(f.timestamps),
                    repr(f.discrete)))
    return out


def signature(x):
    """A cheap fingerprint; if it differs, the full values are compared."""
    import xarray as xr

    if isinstance(x, np.ndarray):
        return x.tobytes()
    if isinstance(x, xr.DataArray):
        v = x.variable
        return (id(v._data), v.dims, x.name, repr(v._attrs), v._data.tobytes(),
                tuple((c, id(k._data), repr(k._attrs), np.asarray(k._data).tobytes())
                      for c, k in x._coords.items()))
    if isinstance(x, xr.Dataset):
        return (repr(x.attrs), tuple((c, id(k._data), repr(k._attrs),
                                      np.asarray(k._data).tobytes())
                                     for c, k in x._variables.items()))
    if isinstance(x, tuple):
        return tuple(signature(y) for y in x)
    return canon(x)


class Unchanged:
    """Checks that a set of arguments keeps its values."""

    def __init__(self, args):
        self.args = args
        self.full = {k: canon(v) for k, v in args.items()}
        self.sig = {k: signature(v) for k, v in args.items()}

    def changed(self):
        return [k for k, v in self.args.items()
                if signature(v) != self.sig[k] and canon(v) != self.full[k]]


OPS = None
BASE = {}


def baseline(name):
    if name not in BASE:
        e = world()
        BASE[name] = canon(OPS[name](e))
        e["plt"].close("all")
    return BASE[name]


def history(ch, depth, names):
    global OPS
    if OPS is None:
        OPS = ops()
    seq = [ch.choose(f"query {i + 1}", names, free=True) for i in range(depth)]
    want = [baseline(s) for s in seq]
    e = world()
    frames = snapshot_frames(e)
    args = Unchanged(e["a"])
    results = []
    ch.state(*seq)
    for i, s in enumerate(seq):
        r = OPS[s](e)
        ch.step()
        got = canon(r)
        if not (OPS[s].kind == "plot"):
            ch.check(got == want[i], "result depends on earlier queries",
                     lambda: f"query {i + 1} {s}: {r}")
        now = snapshot_frames(e)
        ch.check(now == frames, "frames or registry changed",
                 lambda: f"by {s}:\n{[(a[0]) for a, b in zip(now, frames) if a != b]}")
        bad = args.changed()
        ch.check(not bad, "argument changed", f"{bad} by {s}")
        # results already handed out keep their values, too
        for j, (old, c) in enumerate(results):
            ch.check(canon(old) == c, "earlier result changed",
                     lambda: f"result of {seq[j]} by {s}")
        mutate(r, e["a"].values())
        results.append((r, canon(r)))
        now = snapshot_frames(e)
        ch.check(now == frames, "result aliases a frame",
                 lambda: f"result of {s} shares memory with "
                         f"{[(a[0]) for a, b in zip(now, frames) if a != b]}")
        bad = args.changed()
        ch.check(not bad, "result aliases an argument", f"{bad} with result of {s}")
    ch.outcome(*want)
    e["plt"].close("all")


def scenarios(tier):
    q = tier == "quick"
    global OPS
    OPS = ops()
    names = list(OPS)
    few = [n for n in names if OPS[n].kind == "query"][::4]
    out = [Scenario("single", lambda ch: history(ch, 1, names)),
           Scenario("pairs", lambda ch: history(ch, 2, names))]
    if not q:
        out.append(Scenario("triples", lambda ch: history(ch, 3, few)))
    return out
