"""Quaternion utilities obey quaternion algebra in every layout."""
import itertools

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import INTS, as_int, cmp, fresh

ASSUMPTIONS = [
    "finite, non-zero quaternions; reduction axes are counted in the input "
    "array (non-negative for float arrays, where they differ from the "
    "coordinate axis)",
    "means only where the best-aligned quaternion is unique",
    "interpolation inside the sampled range at strictly increasing times",
]

QS = np.array([
    [1.0, 0, 0, 0], [2, 0, 0, 0], [-1, 0, 0, 0], [0, 1, 0, 0], [0, 0, -3, 0],
    [1, 1, 1, 1], [0.5, -0.5, 0.5, 0.5], [1, 2, -3, 4], [-0.1, 0.2, 0.05, -0.3],
    [0, 3, 4, 0], [1e-3, 0, 0, 2e-3], [7, -1, 0, 2],
])
MID = {"()": (), "(3,)": (3,), "(2, 3)": (2, 3), "(2, 3, 2)": (2, 3, 2), "(1, 3)": (1, 3),
       "(1,)": (1,), "(3, 3)": (3, 3)}
BIG = {"(2049,)": (2049,), "(1000, 2)": (1000, 2), "(2, 1025)": (2, 1025), "(300,)": (300,)}
AXIS = ["last", "-1", "first", "second", "-2", "-3"]


def place(x, where):
    """Move last axis of x to another position: array and axis argument."""
    nd = x.ndim
    ax = {"last": nd - 1, "-1": -1, "first": 0, "second": 1, "-2": -2, "-3": -3}[where]
    if not -nd <= ax < nd:
        return None, None
    return np.moveaxis(x, -1, ax), ax


def quats(mid, offset=0, step=1):
    n = int(np.prod(mid))
    return QS[(offset + step * np.arange(n)) % len(QS)].reshape(mid + (4,))


def cast(Q, x, dt):
    if dt == "quaternion":
        return Q.as_quat_array(x)
    return x.astype(dt)


def memory(x, how):
    if how == "fortran" and x.ndim:
        return np.asfortranarray(x)
    if how == "strided":
        big = np.zeros(tuple(2 * s for s in x.shape), x.dtype)
        big[tuple(slice(None, None, 2) for _ in x.shape)] = x
        return big[tuple(slice(None, None, 2) for _ in x.shape)]
    if how == "read-only" and isinstance(x, np.ndarray):
        x = x.copy()
        x.flags.writeable = False
    return x


def algebra(ch, shapes=MID):
    rbm = fresh()
    import quaternion as Q

    op = ch.choose("operation", ["qinv", "qmul"], free=True)
    mid = shapes[ch.choose("shape", list(shapes), free=True)]
    dt = ch.choose("dtype", ["float64", "quaternion", "float32", "int64"])
    where = ch.choose("quaternion axis", AXIS)
    mem = ch.choose("memory", ["C", "fortran", "strided", "read-only"])
    off = ch.choose("values", range(len(QS)), free=True)
    k = 1
    if op == "qmul":
        k = ch.choose("factors", [2, 3, 4])
        bc = ch.choose("broadcast", ["no", "single", "prefix 1"])
    arrs, cano = [], []
    for i in range(k):
        q = quats(mid, off + 5 * i, 1 + i)
        if i > 0 and bc == "single":
            q = quats((), off + i)
        elif i > 0 and bc == "prefix 1":
            ch.assume(len(mid) > 0)
            q = quats((1,) * len(mid), off + i)
        if dt == "int64":
            q = np.round(q * 10)
        if dt == "float32":
            q = q.astype("float32").astype(float)
        cano.append(q)
        if dt == "quaternion":
            ch.assume(where == "last")
            arrs.append(memory(Q.as_quat_array(q), mem))
            ax = -1
        else:
            ax0 = {"first": 0, "second": 1}.get(where)
            x, ax = place(q, where)
            if i > 0 and bc == "single":
                ch.assume(where in ("last", "-1"))
                ax = -1
            ch.assume(x is not None)
            arrs.append(memory(x.astype(dt), mem))
    ch.state(op, mid, dt, where, mem, off, k)
    before = [a.copy() for a in arrs]
    kw = {} if ax == -1 and where == "last" or dt == "quaternion" else {"qaxis": ax}
    if where == "last" and dt != "quaternion" and ax != -1:
        kw = {"qaxis": ax} if op == "qinv" or bc == "no" else {}
    r = rbm.qinv(arrs[0], **kw) if op == "qinv" else rbm.qmul(*arrs, **kw)
    ch.step()
    want = ref.qinv(cano[0]) if op == "qinv" else cano[0]
    for q in cano[1:]:
        want = ref.qmul(want, q)
    if dt == "quaternion":
        ch.check(np.asarray(r).dtype == np.quaternion, "dtype", f"{type(r)}")
        got = Q.as_float_array(r)
    else:
        ch.check(np.asarray(r).dtype == np.float64, "dtype", f"{r.dtype}")
        got = np.moveaxis(r, kw.get("qaxis", -1), -1)
    ch.check(ref.close(got, want, 1e-9), "values", cmp(got, want))
    for a, b in zip(arrs, before):
        ch.check(np.array_equal(a, b), "input modified")
    ch.outcome(np.round(want, 6).tobytes())


VS = np.array([[1.0, 0, 0], [0, 1, 0], [0, 0, -2], [1, 2, 3], [-0.5, 0.1, 7], [0, 0, 0],
               [3, -1, 2]])


def vecs(mid):
    n = int(np.prod(mid))
    return VS[np.arange(n) % len(VS)].reshape(mid + (3,))


def rotate(ch, shapes=MID):
    rbm = fresh()
    import quaternion as Q

    mode = ch.choose("mode", ["one to one", "single quaternion", "all combinations"],
                     free=True)
    vmid = shapes[ch.choose("vectors", list(shapes), free=True)]
    if mode == "one to one":
        opts = ["same"]
        if len(vmid) and vmid[0] > 1:
            opts += ["q singleton first", "v singleton first"]
        if len(vmid) > 1:
            opts += ["q singleton last", "v singleton last"]
        rel = ch.choose("relation", opts, free=True)
        qmid = vmid
        if rel.endswith("first"):
            one = (1,) + vmid[1:]
        else:
            one = vmid[:-1] + (1,)
        if rel.startswith("q"):
            qmid = one
        elif rel.startswith("v"):
            vmid = one
    elif mode == "single quaternion":
        qmid = ()
    else:
        qmid = MID[ch.choose("quaternions", list(MID), free=True)]
    dt = ch.choose("quaternion dtype", ["quaternion", "float64", "float32", "int64"])
    vdt = ch.choose("vector dtype", ["float64", "int64", "float32", "int16", "uint8", "int32"])
    where = ch.choose("vector axis", AXIS)
    qwhere = ch.choose("quaternion axis", AXIS)
    mem = ch.choose("memory", ["C", "fortran", "strided", "read-only"])
    off = ch.choose("values", range(len(QS)))
    aslist = ch.flag("lists")
    q = quats(qmid, off)
    v = vecs(vmid)
    if dt == "int64":
        q = np.round(q * 1000)
    if dt == "float32":
        q = q.astype("float32").astype(float)
    if vdt in INTS:
        v = as_int(v, vdt)
    if vdt == "float32":
        v = v.astype("float32").astype(float)
    va, ax = place(v, where)
    ch.assume(va is not None)
    kw = {} if where == "last" else {"axis": ax}
    if dt == "quaternion":
        ch.assume(qwhere == "last")
        qa = Q.as_quat_array(q)
        if qmid == ():
            qa = qa[()]
    else:
        qa, qax = place(q, qwhere)
        ch.assume(qa is not None)
        if qwhere != "last":
            kw["qaxis"] = qax
        qa = memory(qa.astype(dt), mem)
        if aslist:
            qa = qa.tolist()
    va = memory(va.astype(vdt), mem)
    if aslist:
        va = va.tolist()
    if mode == "all combinations":
        kw["one_to_one"] = False
    ch.state(mode, vmid, qmid, dt, vdt, where, qwhere, mem, off, aslist)
    r = rbm.rotate_vectors(qa, va, **kw)
    ch.step()
    if mode == "all combinations":
        R = ref.qmat(q).reshape(qmid + (1,) * len(vmid) + (3, 3))
        want = np.einsum("...ij,...j->...i", R, v)
        nd = len(vmid) + 1
        got = np.moveaxis(r, (ax % nd) + len(qmid), -1) if np.ndim(r) == len(qmid) + nd else r
    else:
        want = ref.rot(q, v)
        got = np.moveaxis(r, ax % v.ndim, -1) if np.ndim(r) == want.ndim else r
    tol = 1e-6 if "float32" in (dt, vdt) else 1e-9
    ch.check(ref.close(got, want, tol), "values", cmp(got, want))
    ch.outcome(np.round(want, 6).tobytes())


CLUSTERS = {
    "close": lambda n: np.array([ref.axang((1, np.sin(i), 0.3 * i), 0.2 + 0.1 * np.cos(2 * i))
                                 for i in range(n)]),
    "wide": lambda n: np.array([ref.axang((1, 0.4 * i, -0.5 * i), 0.9 * i) for i in range(n)]),
    "half turns": lambda n: np.array([ref.axang((np.cos(0.1 * i), np.sin(0.1 * i), 0.1), np.pi)
                                      for i in range(n)]),
    "not unit": lambda n: np.array([(1 + 0.5 * i) * ref.axang((1, i, 2), 0.5 + 0.2 * i)
                                    for i in range(n)]),
    "equal": lambda n: np.tile(ref.axang((1, 2, 3), 2.0), (n, 1)),
}
MMID = {"(5,)": (5,), "(2, 4)": (2, 4), "(4, 3)": (4, 3), "(2, 3, 4)": (2, 3, 4),
        "(4, 4)": (4, 4), "(1, 4)": (1, 4), "(1,)": (1,), "()": ()}


def mean(ch, shapes=MMID):
    rbm = fresh()
    import quaternion as Q

    mid = shapes[ch.choose("shape", list(shapes), free=True)]
    vals = ch.choose("values", list(CLUSTERS), free=True)
    dt = ch.choose("dtype", ["quaternion", "float64", "float32"])
    where = ch.choose("quaternion axis", AXIS)
    axes = [None] + list(range(len(mid))) + [
        c for k in range(2, len(mid) + 1) for c in itertools.permutations(range(len(mid)), k)]
    neg = [-1 - i for i in range(len(mid))]
    red = ch.choose("reduce", axes + neg, free=True)
    sign = ch.choose("signs", ["as is", "alternating", "last negative", "all negative"])
    n = int(np.prod(mid))
    q = CLUSTERS[vals](n)
    if sign == "alternating":
        q = q * np.where(np.arange(n) % 2, -1.0, 1.0)[:, None]
    elif sign == "last negative":
        q[-1] *= -1
    elif sign == "all negative":
        q = -q
    q = q.reshape(mid + (4,))
    if dt == "float32":
        q = q.astype("float32").astype(float)
    kw = {}
    if dt == "quaternion":
        ch.assume(where == "last")
        x = Q.as_quat_array(q)
        if red is not None:
            kw["axis"] = red
        qpos = len(mid)
    else:
        # negative axes of float arrays are ambiguous
        ch.assume(not (isinstance(red, int) and red < 0))
        x, qax = place(q, where)
        ch.assume(x is not None)
        x = x.astype(dt)
        if where != "last":
            kw["qaxis"] = qax
        qpos = qax % x.ndim
        to_in = lambda a: a + (a >= qpos)
        if red is not None:
            kw["axis"] = to_in(red) if isinstance(red, int) else tuple(map(to_in, red))
    ch.state(mid, vals, dt, where, red, sign)
    r = rbm.qmean(x, **kw)
    ch.step()
    ra = tuple(range(len(mid))) if red is None else (red,) if isinstance(red, int) else red
    ra = tuple(a % len(mid) for a in ra)
    rest = tuple(s for i, s in enumerate(mid) if i not in ra)
    if dt == "quaternion":
        ch.check(np.asarray(r).dtype == np.quaternion and np.shape(r) == rest, "layout",
                 f"{np.shape(r)} {rest}")
        got = Q.as_float_array(r)
    else:
        pos = qpos - sum(a < qpos for a in ra)
        want_shape = rest[:pos] + (4,) + rest[pos:]
        ch.check(np.shape(r) == want_shape, "layout", f"{np.shape(r)} {want_shape}")
        got = np.moveaxis(r, pos, -1)
    A = np.einsum("...i,...j->...ij", q, q).mean(axis=ra) if ra else np.einsum(
        "...i,...j->...ij", q, q)
    lam = np.linalg.eigvalsh(A)
    ch.assume(np.all(lam[..., 3] - lam[..., 2] > 1e-3))
    ch.check(np.allclose(np.linalg.norm(got, axis=-1), 1, atol=1e-6), "unit", cmp(got, 1.0))
    score = np.einsum("...i,...ij,...j->...", got, A, got)
    ch.check(ref.close(score, lam[..., 3], 1e-5 if dt == "float32" else 1e-10), "not the mean",
             cmp(score, lam[..., 3]))
    res = np.einsum("...ij,...j->...i", A, got) - lam[..., 3:] * got
    ch.check(np.all(np.abs(res) < (1e-4 if dt == "float32" else 1e-7)), "not the mean", cmp(res, 0))
    ch.outcome(np.round(np.abs(got), 5).tobytes())


def times(kind, n):
    if kind == "uniform":
        return 0.25 * np.arange(n)
    if kind == "offset":
        return 100.0 + 0.5 * np.arange(n)
    return np.cumsum(1.0 + 0.7 * np.sin(1.7 * np.arange(n)))


BASE = np.datetime64("2021-05-01T10:00:00", "ns")


def stamp(t, kind):
    if kind == "float":
        return t
    if kind == "list":
        return t.tolist()
    if kind == "int":
        return np.round(t * 1000).astype(int)
    return (BASE + np.round(t * 1e9).astype("int64").astype("timedelta64[ns]")).astype(
        f"datetime64[{kind}]")


def interp(ch, ns=(6, 5, 4, 3, 2, 1)):
    rbm = fresh()
    import quaternion as Q

    others = MID[ch.choose("other dimensions", ["()", "(3,)", "(2, 3)", "(1,)"], free=True)]
    n = ch.choose("samples", ns, free=True)
    pos = ch.choose("interpolation axis", range(len(others) + 1), free=True)
    negpos = ch.flag("negative interpolation axis")
    where = ch.choose("quaternion axis", AXIS)
    dt = ch.choose("dtype", ["float64", "quaternion"])
    rate = ch.choose("rotation", ["constant rate", "varying"], free=True)
    tk = ch.choose("spacing", ["uniform", "irregular", "offset"])
    stk = ch.choose("timestamps", ["float", "int", "ns", "ms", "list"])
    ok = ch.choose("t_out", ["same", "between", "denser", "one", "ends", "reversed"])
    sign = ch.choose("signs", ["as is", "alternating", "last negative"])
    norm = ch.flag("ends at half turn")
    t = times(tk, n)
    if stk in ("int", "ms"):
        t = np.round(t, 3)
    m = int(np.prod(others))
    cols = []
    for c in range(m):
        if rate == "constant rate":
            w = (0.4 + 0.3 * c) * (2.0 if norm else 1.0)
            f = lambda s, c=c, w=w: ref.axang((1, c, -0.5), 0.2 + w * s)
            qs = np.array([f(s) for s in t])
        else:
            qs = np.array([ref.axang((1, np.sin(s), 0.3 * c), 0.3 + 0.4 * np.cos(s + c)) for s in t])
        cols.append(qs)
    t_out = {
        "same": t, "between": (t[1:] + t[:-1]) / 2 if n > 1 else t,
        "denser": np.linspace(t[0], t[-1], 3 * n) if n > 1 else np.repeat(t, 2),
        "one": t[:1] + 0.3 * (t[1] - t[0] if n > 1 else 0), "ends": t[[0, -1]],
        "reversed": t[::-1],
    }[ok]
    if stk in ("int", "ms"):
        t_out = np.round(t_out, 3)
    sg = np.ones(n)
    if sign == "alternating":
        sg = (-1.0) ** np.arange(n)
    elif sign == "last negative":
        sg[-1] = -1
    q = np.stack(cols, 1) * sg[:, None, None]           # (n, m, 4)
    q = np.moveaxis(q.reshape((n,) + others + (4,)), 0, pos)
    kw = {}
    if dt == "quaternion":
        ch.assume(where == "last")
        x = Q.as_quat_array(q)
        axis = pos - x.ndim if negpos else pos
    else:
        x, qax = place(q, where)
        ch.assume(x is not None)
        if where != "last":
            kw["qaxis"] = qax
        qpos = qax % x.ndim
        axis = pos + (pos >= qpos)
        if negpos:
            axis -= x.ndim
    if axis != 0:
        kw["axis"] = axis
    ch.state(others, n, pos, negpos, where, dt, rate, tk, stk, ok, sign, norm)
    r = rbm.qinterp(x, stamp(t, stk), stamp(t_out, stk), **kw)
    ch.step()
    if dt == "quaternion":
        ch.check(r.dtype == np.quaternion, "dtype")
        got = Q.as_float_array(r)
    else:
        ch.check(np.ndim(r) == x.ndim and r.dtype == np.float64, "layout", f"{np.shape(r)}")
        got = np.moveaxis(r, qpos, -1)
    want_shape = list(q.shape)
    want_shape[pos] = len(t_out)
    ch.check(got.shape == tuple(want_shape), "layout", f"{got.shape} {want_shape}")
    got = np.moveaxis(got, pos, 0).reshape(len(t_out), m, 4)
    tol = 1e-6 if stk in ("ns", "ms") else 1e-9
    for c in range(m):
        g = got[:, c]
        at = np.isin(t_out, t)
        exact = np.array([cols[c][list(t).index(s)] for s in t_out[at]]).reshape(-1, 4)
        ch.check(ref.same_quat(g[at], exact, tol), "samples", cmp(g[at], exact))
        if rate == "constant rate" and tk != "irregular" and n > 1:
            w = (0.4 + 0.3 * c) * (2.0 if norm else 1.0)
            want = np.array([ref.axang((1, c, -0.5), 0.2 + w * s) for s in t_out])
        else:
            want = ref.squad(cols[c], t, t_out)
        ch.check(ref.same_quat(g, want, tol), "values", cmp(g, want))
    ch.outcome(np.round(got, 5).tobytes())


def rejected(ch):
    rbm = fresh()
    import quaternion as Q

    q = np.tile(QS[5], (3, 1))
    v = np.ones((3, 3))
    qq = Q.as_quat_array(q)
    case = ch.choose("call", {
        "qinv (3,)": lambda: rbm.qinv(v),
        "qinv wrong axis": lambda: rbm.qinv(q, qaxis=0),
        "qinv axis out of range": lambda: rbm.qinv(q, qaxis=2),
        "qmul one": lambda: rbm.qmul(q),
        "qmul none": lambda: rbm.qmul(),
        "qmul mixed": lambda: rbm.qmul(q, qq),
        "qmul mixed 2": lambda: rbm.qmul(qq, qq, q),
        "qmul shapes": lambda: rbm.qmul(q, q[:2]),
        "qmul wrong axis": lambda: rbm.qmul(q, q, qaxis=0),
        "qmul shapes q": lambda: rbm.qmul(qq, qq[:2]),
        "qmean wrong axis": lambda: rbm.qmean(q, qaxis=0),
        "qmean (3, 3)": lambda: rbm.qmean(v),
        "qmean reduce out of range": lambda: rbm.qmean(qq, axis=1),
        "qmean reduce out of range -": lambda: rbm.qmean(qq, axis=-2),
        "qmean reduce tuple": lambda: rbm.qmean(qq, axis=(0, 1)),
        "qmean float reduce out of range": lambda: rbm.qmean(q, axis=2),
        "qinterp lengths": lambda: rbm.qinterp(q, np.arange(4.0), np.arange(3.0)),
        "qinterp lengths 2": lambda: rbm.qinterp(q, np.arange(2.0), np.arange(2.0)),
        "qinterp wrong axis": lambda: rbm.qinterp(q, np.arange(3.0), np.arange(3.0), qaxis=0),
        "rotate count": lambda: rbm.rotate_vectors(q, v[:2]),
        "rotate count q": lambda: rbm.rotate_vectors(qq[:2], v),
        "rotate (3, 2)": lambda: rbm.rotate_vectors(qq, v[:, :2]),
        "rotate (3, 4)": lambda: rbm.rotate_vectors(qq, q),
        "rotate single (4,)": lambda: rbm.rotate_vectors(qq[0], q),
        "rotate dims": lambda: rbm.rotate_vectors(qq, v[0]),
        "rotate dims 2": lambda: rbm.rotate_vectors(qq[:, None], v),
        "rotate wrong q axis": lambda: rbm.rotate_vectors(q, v, qaxis=0),
        "rotate all (4,)": lambda: rbm.rotate_vectors(qq, q, one_to_one=False),
    }, free=True)
    ch.state(ch.points[-1][4])
    ch.raises(case, "accepted: " + ch.points[-1][4])


def many(ch):
    """The same on many elements at once."""
    f = ch.choose("function", {
        "algebra": lambda: algebra(ch, BIG), "rotate": lambda: rotate(ch, BIG),
        "mean": lambda: mean(ch, BIG), "interpolation": lambda: interp(ch, (300, 1025))}, free=True)
    f()


def scenarios(tier):
    b = 2 if tier == "quick" else None
    return [
        Scenario("algebra", algebra, 2 if tier == "quick" else None),
        Scenario("rotate", rotate, 2 if tier == "quick" else 3),
        Scenario("mean", mean, b),
        Scenario("interpolation", interp, 2 if tier == "quick" else 3),
        Scenario("rejected", rejected),
        Scenario("many elements", many, 0 if tier == "quick" else 1),
    ]
