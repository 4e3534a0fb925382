"""Best-fit alignment is optimal and a proper rotation."""
import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import INTS, cmp, fresh

ASSUMPTIONS = [
    "finite coordinates of moderate size; both arrays have the same layout",
    "recovery only where the optimum is unique; iterative closest point "
    "recovers if every initial nearest neighbour is the true one",
    "the match of iterative closest point is measured by the RMS distance to "
    "the nearest neighbours",
]

_k = np.arange(12.0)
GEN = np.stack((np.sin(3 * _k), np.cos(5 * _k) * 1.3, np.sin(7 * _k + 1) * 0.7), -1)
CUBE = np.array([(x, y, z) for x in (0, 2.0) for y in (0, 2.2) for z in (0, 2.5)]) + [
    [0.1 * i, 0.03 * i * i, -0.05 * i] for i in range(8)]
SETS = {
    # name: (points, rank)
    "general": (GEN, 3),
    "planar": (GEN * [1, 1, 0], 2),
    "collinear": (np.outer(_k - 3, [1.0, 2, -1]), 1),
    "axes": (np.eye(3)[np.arange(12) % 3] * (1 + _k // 3)[:, None], 3),
    "far away": (GEN + [100.0, -50, 20], 3),
    "equal": (np.tile([1.0, 2, 3], (12, 1)), 0),
    "cube": (np.array([(x, y, z) for x in (-1.0, 1) for y in (-1.0, 1) for z in (-1.0, 1)]
                      + [(0, 0, 0)] * 4), 3),
    "two distinct": (np.array([(0.0, 0, 0), (1, 0, 0)] * 6), 1),
}
ROTS = {
    "small": ref.axang((1, 2, 3), 0.1),
    "identity": np.array([1.0, 0, 0, 0]),
    "general": ref.axang((1, -2, 0.5), 2.0),
    "half turn x": np.array([0.0, 1, 0, 0]),
    "half turn": ref.axang((1, 1, 1), np.pi),
    "quarter z": ref.axang((0, 0, 1), -np.pi / 2),
}
TRANS = {"general": np.array([0.5, -2.0, 3.0]), "zero": np.zeros(3),
         "large": np.array([1e3, 0, -1e3])}
TARGETS = ["exact", "mirrored", "noisy", "unrelated", "mirrored x", "scaled", "inverted"]
LAYOUT = {
    "(12, 3)": ((12,), -1), "(3, 12)": ((12,), 0), "axis 1": ((12,), 1),
    "(3, 4, 3)": ((3, 4), -1), "(3a, 3, 4)": ((3, 4), 1), "(3, 3a, 4)": ((3, 4), 0),
    "(2, 2, 3, 3)": ((2, 2, 3), -1), "(6, 3, 2)": ((6, 2), -2), "(3, 2, 2, 3)": ((2, 2, 3), -4),
}


def costs(a, b, R, t):
    return np.sum((b - (a @ R.T + t)) ** 2)


def optimum(a, b, center):
    if center:
        a = a - a.mean(0)
        b = b - b.mean(0)
    H = a.T @ b
    U, s, Vt = np.linalg.svd(H)
    # sign of the determinant of H, irrelevant where the last one vanishes
    d = sgn = np.sign(np.linalg.det(U) * np.linalg.det(Vt))
    return np.sum(a**2) + np.sum(b**2) - 2 * (s[0] + s[1] + sgn * s[2]), s, d


GRID_R = [ref.qmat(np.array(q, float)) for q in
          [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, -1, 0, 0),
           (1, 0, 1, 0), (1, 0, -1, 0), (1, 0, 0, 1), (1, 0, 0, -1), (1, 1, 1, 1),
           (1, -1, 1, 1), (1, 1, -1, 1), (1, 1, 1, -1), (1, -1, -1, 1), (1, -1, 1, -1),
           (1, 1, -1, -1), (1, -1, -1, -1), (0, 1, 1, 0), (0, 1, -1, 0), (0, 1, 0, 1),
           (0, 1, 0, -1), (0, 0, 1, 1), (0, 0, 1, -1)]]


def layouts(ch, a, b, shapes):
    mid, ax = shapes[ch.choose("layout", list(shapes))]
    return (np.moveaxis(a.reshape(mid + (3,)), -1, ax), np.moveaxis(b.reshape(mid + (3,)), -1, ax),
            ax)


def call(ch, rbm, fn, x, y, ax, **kw):
    import xarray as xr

    kind = ch.choose("input", ["array", "dataarray", "dataarray, axis", "both dataarray",
                               "second dataarray", "list"])
    nd = x.ndim
    dims = [f"d{i}" for i in range(nd)]
    dims[ax % nd] = "xyz"
    keep = [x.copy(), y.copy()]
    is_da = kind in ("dataarray", "dataarray, axis", "both dataarray")
    mk = lambda v: xr.DataArray(v.copy(), {"xyz": ["a", "b", "c"]}, dims)
    if kind == "list":
        ch.assume(False)
    if is_da:
        a1 = mk(x)
    else:
        a1 = x
    a2 = mk(y) if kind in ("both dataarray", "second dataarray") else y
    if kind in ("dataarray", "both dataarray"):
        kw["dim"] = "xyz"
    elif ax != -1:
        kw["axis"] = ax
    r = getattr(rbm, fn)(a1, a2, **kw)
    ch.step()
    parts = r if isinstance(r, tuple) else (r,)
    if is_da:
        for p in parts:
            ch.check(isinstance(p, xr.DataArray), "type", f"{type(p)}")
            lab = list("xyz") if p.shape == (3,) else list("wxyz")
            d = "cartesian_axis" if p.shape == (3,) else "quaternion_axis"
            ch.check(p.dims == (d,) and list(p[d].values) == lab, "labels", f"{p}")
        ch.check(parts[-1].name == "rotation" and (len(parts) == 1 or parts[0].name == "translation"),
                 "name")
    else:
        ch.check(all(type(p) is np.ndarray for p in parts), "type", f"{[type(p) for p in parts]}")
    ch.check(np.array_equal(np.asarray(a1), keep[0]) and np.array_equal(np.asarray(a2), keep[1]),
             "input modified")
    return [np.asarray(p) for p in parts]


def proper(ch, q):
    ch.check(q.shape == (4,) and np.all(np.isfinite(q)) and abs(np.linalg.norm(q) - 1) < 1e-7,
             "not a unit quaternion", f"{q}")


_m = np.arange(2052.0)
MANY = {
    "general": (np.stack((np.sin(3 * _m), np.cos(5 * _m) * 1.3, np.sin(7 * _m + 1) * 0.7), -1), 3),
    "long line, few aside": (np.outer(_m / 100, [1.0, 2, -1])
                             + (_m[:, None] % 1000 == 999) * [[3.0, -1, 0.5]], 3),
    "last ones far": (np.stack((np.sin(_m), np.cos(2 * _m), 0.1 * np.sin(3 * _m)), -1)
                      * np.where(_m < 2046, 1, 40.0)[:, None], 3),
}
MANY_LAYOUT = {"(n, 3)": ((2052,), -1), "(3, n)": ((2052,), 0), "(2, 3, 1026)": ((2, 1026), 1),
               "(1026, 2, 3)": ((1026, 2), -1)}


def bestfit(ch, SETS=SETS, LAYOUT=LAYOUT):
    rbm = fresh()
    fn = ch.choose("function", ["best_fit_transform", "best_fit_rotation"], free=True)
    name = ch.choose("points", list(SETS), free=True)
    target = ch.choose("target", TARGETS, free=True)
    rn = ch.choose("rotation", list(ROTS), free=True)
    tn = ch.choose("translation", list(TRANS))
    dt = ch.choose("dtype", ["float64", "int64", "float32", "int16", "int32", "uint8"])
    a, rank = SETS[name]
    if dt == "int64":
        a = np.round(a * 10)
    q = ROTS[rn]
    t = TRANS[tn] if fn == "best_fit_transform" else np.zeros(3)
    ch.assume(fn == "best_fit_transform" or tn == "general")
    R = ref.qmat(q)
    b = a @ R.T + t
    if target == "mirrored":
        b = (a * [1, 1, -1]) @ R.T + t
    elif target == "mirrored x":
        b = (a * [-1, 1, 1]) @ R.T + t
    elif target == "noisy":
        b = b + 0.02 * np.sin(11 * np.arange(3.0 * len(a))).reshape(-1, 3)
    elif target == "unrelated":
        b = np.roll(SETS["general"][0], 1, axis=0)[::-1] * 2
    elif target == "scaled":
        b = 0.3 * a @ R.T + t
    elif target == "inverted":
        b = -(a @ R.T) + t
    if dt == "int64":
        b = np.round(b)
    elif dt in INTS:
        if dt.startswith("u"):
            a, b = a - a.min(), b - b.min()
        f = INTS[dt] / max(np.abs(a).max(), np.abs(b).max())
        a, b = np.round(f * a), np.round(f * b)
    x, y, ax = layouts(ch, a, b, LAYOUT)
    ch.state(fn, name, target, rn, tn, dt, ch.points[-1][4])
    res = call(ch, rbm, fn, x.astype(dt), y.astype(dt), ax)
    if dt == "float32":
        a, b = a.astype(dt).astype(float), b.astype(dt).astype(float)
    gq = res[-1]
    gt = res[0] if fn == "best_fit_transform" else np.zeros(3)
    proper(ch, gq)
    ch.check(gt.shape == (3,), "shape", f"{gt.shape}")
    gR = ref.qmat(gq)
    scale = np.sum(a**2) + np.sum(b**2)
    got = costs(a, b, gR, gt)
    tol = 1e-4 if dt == "float32" else 1e-9
    best, s, d = optimum(a, b, fn == "best_fit_transform")
    ch.check(got <= best + tol * scale, "not optimal", f"cost {got}, optimum {best}")
    for Rg in GRID_R + [R, gR @ ref.qmat(ref.axang((1, 0, 0), 1e-2)),
                        gR @ ref.qmat(ref.axang((0, 1, 0), 1e-2)),
                        gR @ ref.qmat(ref.axang((0, 0, 1), 1e-2))]:
        tg = b.mean(0) - Rg @ a.mean(0) if fn == "best_fit_transform" else np.zeros(3)
        ch.check(got <= costs(a, b, Rg, tg) + tol * scale, "not optimal",
                 lambda: f"cost {got}, better {costs(a, b, Rg, tg)}")
    eff_rank = np.sum(s > 1e-9 * max(s[0], 1e-300))
    if target == "exact" and dt == "float64" and eff_rank >= 2:
        ch.check(np.allclose(gR, R, atol=1e-6), "motion not recovered", cmp(gR, R))
        if fn == "best_fit_transform":
            # translation error is amplified by the distance of the centroid
            ch.check(np.allclose(gt, t, atol=1e-6 * (1 + np.abs(a).max() + np.abs(t).max())),
                     "translation not recovered", cmp(gt, t))
    ch.outcome(np.round(gR, 5).tobytes())


def rms(a, b):
    d = np.sqrt(((a[:, None] - b[None]) ** 2).sum(-1))
    return np.sqrt(np.mean(d.min(1) ** 2)), d.argmin(1)


PERM = {"shuffled": [5, 2, 7, 0, 3, 6, 1, 4], "same": list(range(8)), "reversed": list(range(8))[::-1]}


def icp_many(ch):
    """A regular cloud of thousands of points, moved by less than half its spacing."""
    rbm = fresh()
    side = ch.choose("side", [6, 13], free=True)
    g = np.arange(side) - 0.4 * side
    a = np.stack(np.meshgrid(g, 1.1 * g, 0.9 * g, indexing="ij"), -1).reshape(-1, 3)
    q = ch.choose("rotation", {"small": ref.axang((1, 2, 3), 0.02), "none": np.array([1.0, 0, 0, 0])},
                  free=True)
    t = ch.choose("translation", {"small": np.array([0.05, -0.1, 0.08]), "zero": np.zeros(3)}, free=True)
    order = ch.choose("order", ["same", "reversed", "shuffled"], free=True)
    extra = ch.choose("target has", ["same points", "more points", "fewer points"])
    layout = ch.choose("layout", ["(n, 3)", "(3, n)"])
    R = ref.qmat(q)
    b = a @ R.T + t
    n = len(a)
    b = b[{"same": np.arange(n), "reversed": np.arange(n)[::-1],
           "shuffled": np.arange(n) * 5 % n if n % 5 else np.arange(n)}[order]]
    if extra == "more points":
        b = np.vstack((b + [0, 0, 100.0], b))
    elif extra == "fewer points":
        b = b[: n // 2]
    x, y, ax = (a, b, -1) if layout == "(n, 3)" else (a.T, b.T, 0)
    ch.state(side, q.tobytes(), t.tobytes(), order, extra, layout)
    gt, gq = call(ch, rbm, "iterative_closest_point", x, y, ax)
    proper(ch, gq)
    gR = ref.qmat(gq)
    from scipy.spatial import cKDTree

    tree = cKDTree(b)
    r0, r1 = (np.sqrt(np.mean(tree.query(p)[0] ** 2)) for p in (a, a @ gR.T + gt))
    ch.check(r1 <= r0 * (1 + 1e-9) + 1e-7, "worse than the initial guess", f"{r0} -> {r1}")
    if extra != "fewer points":
        ch.check(np.allclose(gR, R, atol=1e-6) and np.allclose(gt, t, atol=1e-5),
                 "motion not recovered", lambda: cmp(gR, R)() + cmp(gt, t)())
    ch.outcome(np.round(gR, 4).tobytes())


def icp(ch):
    rbm = fresh()
    q = {"small": ref.axang((1, 2, 3), 0.08), "identity": np.array([1.0, 0, 0, 0]),
         "medium": ref.axang((1, 0, 2), 0.3), "large": ref.axang((1, -2, 0.5), 2.0),
         "half turn": np.array([0.0, 0, 1, 0])}
    rn = ch.choose("rotation", list(q), free=True)
    t = {"small": np.array([0.05, -0.1, 0.08]), "zero": np.zeros(3),
         "large": np.array([5.0, -2, 3])}
    tn = ch.choose("translation", list(t), free=True)
    perm = PERM[ch.choose("order", list(PERM), free=True)]
    init = ch.choose("initial guess", ["none", "truth", "near", "bad", "non-unit truth"], free=True)
    extra = ch.choose("target has", ["same points", "more points", "fewer points", "noise"])
    its = ch.choose("max_iterations", [None, 0, 1, 2, 50])
    tol = ch.choose("tolerance", [None, 0.0, 1e-9, 10.0])
    R, tt = ref.qmat(q[rn]), t[tn]
    a = CUBE
    b = (a @ R.T + tt)[perm]
    if extra == "more points":
        b = np.vstack((b, b + [30.0, 0, 0]))
    elif extra == "fewer points":
        b = b[:6]
    elif extra == "noise":
        b = b + 0.01 * np.sin(np.arange(24.0)).reshape(8, 3)
    layout = ch.choose("layout", ["(n, 3)", "(3, n)", "(2, n, 3)"])
    ax = -1
    x, y = a, b
    if layout == "(3, n)":
        x, y, ax = a.T, b.T, 0
    elif layout == "(2, n, 3)":
        x, y = a.reshape(2, -1, 3), b.reshape(2, -1, 3)
    kw = {}
    iq, it = {"none": (np.array([1.0, 0, 0, 0]), np.zeros(3)), "truth": (q[rn], tt),
              "near": (ref.qmul(ref.axang((0, 1, 1), 0.05), q[rn]), tt + 0.05),
              "bad": (ref.axang((3, 1, -1), 2.5), np.array([1.0, 1, 1])),
              "non-unit truth": (2 * q[rn], tt)}[init]
    if init != "none":
        kw["init_transform"] = (it, iq)
    if its is not None:
        kw["max_iterations"] = its
    if tol is not None:
        kw["tolerance"] = tol
    ch.state(rn, tn, tuple(perm), init, extra, its, tol, layout)
    gt, gq = call(ch, rbm, "iterative_closest_point", x, y, ax, **kw)
    proper(ch, gq)
    gR = ref.qmat(gq)
    start = a @ ref.qmat(iq).T + it
    r0, nn = rms(start, b)
    r1, _ = rms(a @ gR.T + gt, b)
    ch.check(r1 <= r0 * (1 + 1e-9) + 1e-7, "worse than the initial guess", f"{r0} -> {r1}")
    inv = np.argsort(perm)
    if extra in ("same points", "more points") and np.array_equal(nn, inv) and its != 0:
        ch.check(np.allclose(gR, R, atol=1e-6) and np.allclose(gt, tt, atol=1e-5),
                 "motion not recovered", lambda: cmp(gR, R)() + cmp(gt, tt)())
    ch.outcome(np.round(gR, 4).tobytes())


def rejected(ch):
    rbm = fresh()
    fn = ch.choose("function", ["best_fit_rotation", "best_fit_transform",
                                "iterative_closest_point"], free=True)
    g = getattr(rbm, fn)
    a = GEN
    cases = {
        "two coordinates": lambda: g(a[:, :2], a[:, :2]),
        "four coordinates": lambda: g(np.ones((5, 4)), np.ones((5, 4))),
        "first wrong": lambda: g(np.ones((3, 4)), a[:4]),
        "first wrong 2": lambda: g(np.ones((3, 2)), a[:2]),
        "second wrong 2": lambda: g(a[:4], np.ones((3, 4))),
        "second wrong": lambda: g(a, a[:, :2]),
        "wrong axis": lambda: g(a, a, axis=0),
        "single vectors": lambda: g(a[0], a[0]),
        "dim without DataArray": lambda: g(a, a, dim="xyz"),
    }
    if fn != "iterative_closest_point":
        cases["counts"] = lambda: g(a, a[:-1])
        cases["counts 2"] = lambda: g(a[:1], a)
    name = ch.choose("case", list(cases), free=True)
    ch.state(fn, name)
    ch.raises(cases[name], "accepted: " + name)


def scenarios(tier):
    q = tier == "quick"
    return [Scenario("best fit", bestfit, 2 if q else None),
            Scenario("icp", icp, 2 if q else None),
            Scenario("rejected", rejected),
            Scenario("many points", lambda ch: bestfit(ch, MANY, MANY_LAYOUT), 1 if q else None),
            Scenario("icp, many points", icp_many, 1 if q else None)]
