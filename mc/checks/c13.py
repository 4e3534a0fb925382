"""Shortest-arc rotation maps one direction onto the other minimally."""
import itertools

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import INTS, cmp, fresh

ASSUMPTIONS = [
    "finite non-zero vectors with lengths between 1e-70 and 1e70",
    "directions within 1e-6 of opposite are mapped to within 1e-6",
]

DIRS = np.array([d for d in itertools.product([-1.0, 0, 1], repeat=3) if any(d)]
                + [[1, 2, 3], [-0.3, 0.1, 5], [0.2, -7, 0.01]])
LEN = [1.0, 3.0, 0.1, 1e-70, 1e70, 1e-9]


def judge(ch, q, a, b, tol=1e-7):
    """q (..., 4), a and b (..., 3)."""
    ch.check(q.shape == a.shape[:-1] + (4,), "layout", f"{q.shape} {a.shape}")
    ch.check(np.all(np.isfinite(q)), "not finite", cmp(q, a))
    ch.check(np.allclose(np.linalg.norm(q, axis=-1), 1, atol=1e-7), "unit", cmp(q, 1.0))
    ua = a / np.linalg.norm(a, axis=-1, keepdims=True)
    ub = b / np.linalg.norm(b, axis=-1, keepdims=True)
    got = ref.rot(q, ua)
    ch.check(np.all(np.abs(got - ub) < tol), "direction", cmp(got, ub))
    ang = 2 * np.arctan2(np.linalg.norm(ua - ub, axis=-1), np.linalg.norm(ua + ub, axis=-1))
    gang = 2 * np.arctan2(np.linalg.norm(q[..., 1:], axis=-1), np.abs(q[..., 0]))
    ch.check(np.all(np.abs(ang - gang) < tol), "angle", cmp(gang, ang))


def pairs(ch):
    """Every pair of directions and lengths; nearly (anti-)parallel pairs."""
    rbm = fresh()
    i = ch.choose("first", range(len(DIRS)), free=True)
    l1 = ch.choose("first length", LEN, free=True)
    l2 = ch.choose("second length", LEN, free=True)
    near = ch.choose("second", ["all directions", "nearly parallel", "nearly opposite",
                                "exactly opposite or parallel"], free=True)
    a = DIRS[i] / np.linalg.norm(DIRS[i])
    if near == "all directions":
        b = DIRS
    elif near == "exactly opposite or parallel":
        b = np.array([a, -a, DIRS[i], -DIRS[i], -3 * DIRS[i], -DIRS[i] / 7])
    else:
        p = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
        p = np.array([p / np.linalg.norm(p), np.cross(a, p)])
        e = np.array([10.0**-k for k in range(1, 17)])
        b = (a if near == "nearly parallel" else -a) + (e[:, None, None] * p).reshape(-1, 3)
    x = np.tile(l1 * DIRS[i], (len(b), 1))
    y = l2 * b
    ch.state(i, l1, l2, near)
    q = rbm.shortest_arc_rotation(x, y)
    ch.step(len(b))
    judge(ch, q, x, y, 1e-6)
    ch.outcome(np.round(q, 4).tobytes())


MID = {"(5,)": (5,), "()": (), "(2, 5)": (2, 5), "(3, 3)": (3, 3), "(4, 3)": (4, 3),
       "(2, 3, 2)": (2, 3, 2), "(1,)": (1,)}
BIG = {"(2049,)": (2049,), "(1000, 2)": (1000, 2), "(2, 1025)": (2, 1025)}


def layout(ch, shapes=MID):
    rbm = fresh()
    import xarray as xr

    mid = shapes[ch.choose("shape", list(shapes), free=True)]
    n = int(np.prod(mid))
    off = ch.choose("values", range(4), free=True)
    k = np.arange(n)
    a = DIRS[(3 * k + off) % len(DIRS)] * (1 + k)[:, None]
    b = DIRS[(7 * k + 2 * off + 1) % len(DIRS)] * (2 + k)[:, None]
    opp = ch.choose("special elements", ["opposite", "none", "parallel", "all opposite",
                                         "mixed"], free=True)
    if opp in ("opposite", "mixed"):
        b[0] = -2 * a[0]
    if opp in ("parallel", "mixed"):
        b[-1] = 3 * a[-1]
    if opp == "all opposite":
        b = -a
    a, b = a.reshape(mid + (3,)), b.reshape(mid + (3,))
    where = ch.choose("axis", [-1] + list(range(len(mid) + 1)) + [-2, -3], free=True)
    ch.assume(-a.ndim <= where < a.ndim)
    dt = ch.choose("dtype", ["float64", "int64", "float32", "int16", "int8"])
    dt2 = ch.choose("second dtype", ["float64", "int64", "float32", "int16", "int8"])
    small = [d for d in ("int8", "int16", "int64") if d in (dt, dt2)]
    if small:
        # one scale for both, which keeps opposite vectors opposite
        f = INTS[small[0]] / max(1.0, np.abs(a).max(), np.abs(b).max())
        a, b = np.round(f * a), np.round(f * b)
        ch.assume(np.all(np.any(a, -1)) and np.all(np.any(b, -1)))
    entry = ch.choose("entry", ["array", "dataarray, dim", "dataarray, axis", "both dataarray",
                                "list", "fortran"])
    x = np.moveaxis(a, -1, where).astype(dt)
    y = np.moveaxis(b, -1, where).astype(dt2)
    kx, ky = x.copy(), y.copy()
    nd = a.ndim
    kw = {} if where == -1 else {"axis": where}
    dims = [f"d{i}" for i in range(nd)]
    pos = where % nd
    dims[pos] = "xyz"
    arg1, arg2 = x, y
    da = None
    if "dataarray" in entry:
        coords = {"xyz": ["x", "y", "z"], "run": 5}
        others = [i for i in range(nd) if i != pos]
        if others:
            coords[dims[others[0]]] = np.arange(x.shape[others[0]]) * 10
        coords["second"] = ("xyz", [1, 2, 3])
        da = xr.DataArray(x.copy(), coords, dims, "v", {"units": "m"})
        keep = da.copy(deep=True)
        arg1 = da
        if entry != "dataarray, axis":
            kw = {"dim": "xyz"}
        if entry == "both dataarray":
            arg2 = xr.DataArray(y.copy(), dims=dims)
    elif entry == "list":
        arg1, arg2 = x.tolist(), y.tolist()
    elif entry == "fortran":
        arg1, arg2 = np.asfortranarray(x), np.asfortranarray(y)
    ch.state(mid, off, opp, where, dt, dt2, entry)
    r = rbm.shortest_arc_rotation(arg1, arg2, **kw)
    ch.step()
    if da is not None:
        want = list(dims)
        want[pos] = "quaternion_axis"
        ch.check(isinstance(r, xr.DataArray) and list(r.dims) == want, "dims", f"{r}")
        ch.check(list(r["quaternion_axis"].values) == list("wxyz"), "labels", f"{r}")
        names = {c for c in keep.coords if "xyz" not in keep[c].dims} | {"quaternion_axis"}
        ch.check(set(r.coords) == names, "coords", f"{r.coords}")
        for c in names - {"quaternion_axis"}:
            ch.check(r[c].identical(keep[c].drop_vars("second", errors="ignore"))
                     or np.array_equal(r[c].values, keep[c].values), "coord " + c)
        ch.check(r.attrs == keep.attrs and r.name == keep.name, "name and attributes", f"{r}")
        ch.check(da.identical(keep), "input modified")
    ch.check(np.array_equal(x, kx) and np.array_equal(y, ky), "input modified")
    q = np.moveaxis(np.asarray(r), pos, -1) if np.ndim(r) == nd else np.asarray(r)
    judge(ch, q, np.moveaxis(kx, pos, -1).astype(float), np.moveaxis(ky, pos, -1).astype(float),
          2e-3 if "float32" in (dt, dt2) else 1e-6)
    ch.outcome(np.round(q, 4).tobytes())


def scenarios(tier):
    return [Scenario("pairs", pairs), Scenario("layout", layout, 2 if tier == "quick" else None),
            Scenario("many elements", lambda ch: layout(ch, BIG), 0 if tier == "quick" else 1)]
