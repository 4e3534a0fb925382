"""Euler angles compose in the given order, in every spelling and layout."""
import itertools

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = ["finite angles; quaternions compared up to sign"]

ANG = [0.0, np.pi / 2, -np.pi / 2, np.pi, 0.3, -2.5, 7.0, 1e-9]
AX = {"r": (1, 0, 0), "p": (0, 1, 0), "y": (0, 0, 1)}
ORDERS = ["".join(p) for p in itertools.permutations("rpy")]
MID = {"()": (), "(4,)": (4,), "(2, 4)": (2, 4), "(2, 4, 3)": (2, 4, 3), "(3, 3)": (3, 3),
       "(1,)": (1,), "(3,)": (3,), "(4, 4)": (4, 4)}


BIG = {"(2049,)": (2049,), "(1000, 2)": (1000, 2), "(2, 1025)": (2, 1025)}


def oracle(rpy, order):
    ang = dict(zip("rpy", np.moveaxis(rpy, -1, 0)))
    q = np.broadcast_to([1.0, 0, 0, 0], rpy.shape[:-1] + (4,))
    for c in order:
        q = ref.qmul(q, ref.axang(AX[c], ang[c]))
    return q


def grid(ch):
    """All angle triples of the alphabet in one call per order and spelling."""
    rbm = fresh()
    order = ch.choose("order", ORDERS, free=True)
    first = ch.choose("roll", ANG, free=True)
    spelling = ch.choose("spelling", ["rpy", "separate"], free=True)
    rpy = np.array([(first, p, y) for p in ANG for y in ANG])
    ch.state(order, first, spelling)
    if spelling == "rpy":
        q = rbm.from_euler_angles(rpy, order=order)
    else:
        q = rbm.from_euler_angles(roll=rpy[:, 0], pitch=rpy[:, 1], yaw=rpy[:, 2], order=order)
    ch.step(len(rpy))
    want = oracle(rpy, order)
    ch.check(q.shape == want.shape and ref.same_quat(q, want), "values", cmp(q, want))
    ch.outcome(np.round(want, 6).tobytes())


def layout(ch, shapes=MID):
    rbm = fresh()
    import quaternion as Q

    mid = shapes[ch.choose("shape", list(shapes), free=True)]
    order = ch.choose("order", [None] + ORDERS, free=True)
    spelling = ch.choose("spelling", ["rpy", "r", "p", "y", "rp", "ry", "py", "rpy separate"],
                         free=True)
    where = ch.choose("axis", [-1] + list(range(len(mid) + 1)) + [-2, -3])
    dt = ch.choose("dtype", ["float64", "int64", "float32"])
    cont = ch.choose("container", ["array", "list", "fortran"])
    as_q = ch.flag("return quaternion")
    n = int(np.prod(mid))
    rpy = np.stack([np.resize(np.roll(ANG[:7], 2 * k), n) for k in range(3)], -1).reshape(mid + (3,))
    if dt == "int64":
        rpy = np.round(rpy)
    if dt == "float32":
        rpy = rpy.astype("float32").astype(float)
    kw = {} if order is None else {"order": order}
    if as_q:
        kw["return_quaternion"] = True

    def box(x):
        x = np.asarray(x).astype(dt)
        if cont == "list":
            return x.tolist()
        if cont == "fortran" and x.ndim:
            return np.asfortranarray(x)
        return x

    ch.state(mid, order, spelling, where, dt, cont, as_q)
    if spelling == "rpy":
        ch.assume(-rpy.ndim <= where < rpy.ndim)
        if where != -1:
            kw["axis"] = where
        x = np.moveaxis(rpy, -1, where)
        arg = box(x)
        q = rbm.from_euler_angles(arg, **kw)
        if isinstance(arg, np.ndarray):
            ch.check(np.array_equal(arg, x.astype(dt)), "input modified")
        used = rpy
    else:
        ch.assume(where == -1)
        names = spelling.split()[0]
        used = np.array(rpy)
        for i, c in enumerate("rpy"):
            if c not in names:
                used[..., i] = 0
            else:
                kw[{"r": "roll", "p": "pitch", "y": "yaw"}[c]] = box(rpy[..., i])
        q = rbm.from_euler_angles(**kw)
    ch.step()
    want = oracle(used, order or "rpy")
    if as_q:
        ch.check(np.asarray(q).dtype == np.quaternion, "dtype", f"{type(q)}")
        got = Q.as_float_array(q)
    else:
        ch.check(q.dtype == np.float64, "dtype", f"{q.dtype}")
        got = np.moveaxis(q, where, -1) if np.ndim(q) == want.ndim else q
    ch.check(np.shape(got) == want.shape, "layout", f"{np.shape(got)} {want.shape}")
    tol = 1e-6 if dt == "float32" else 1e-9
    ch.check(np.allclose(np.linalg.norm(got, axis=-1), 1, atol=tol), "unit", cmp(got, 1.0))
    ch.check(ref.same_quat(got, want, tol), "values", cmp(got, want))
    ch.outcome(np.round(want, 6).tobytes())


def rejected(ch):
    rbm = fresh()
    f = rbm.from_euler_angles
    a = np.zeros(3)
    cases = {
        "nothing": lambda: f(),
        "nothing but order": lambda: f(order="ypr"),
        "rpy and roll": lambda: f(np.zeros(3), roll=0.0),
        "rpy and pitch": lambda: f(np.zeros(3), pitch=0.0),
        "rpy and yaw": lambda: f(np.zeros(3), yaw=a),
        "roll pitch shapes": lambda: f(roll=a, pitch=np.zeros(2)),
        "roll yaw shapes": lambda: f(roll=a, yaw=np.zeros((3, 1))),
        "pitch yaw shapes": lambda: f(pitch=a, yaw=np.zeros(4)),
        "roll array, yaw scalar": lambda: f(roll=a, yaw=1.0),
        "pitch scalar, yaw array": lambda: f(pitch=1.0, yaw=a),
        "two angles": lambda: f(np.zeros((5, 2))),
        "four angles": lambda: f(np.zeros((5, 4))),
        "wrong axis": lambda: f(np.zeros((5, 3)), axis=0),
        "axis out of range": lambda: f(np.zeros((5, 3)), axis=2),
        "one angle": lambda: f(np.zeros(1)),
    }
    for o in itertools.chain(
        ("".join(x) for k in range(5) for x in itertools.product("rpy", repeat=k)),
        ["rpz", "xyz", "RPY", "rpyx", "xrpy", "r,p,y", " rpy", "rpy ", "rp y"],
    ):
        if sorted(o) != ["p", "r", "y"]:
            cases[f"order {o!r}"] = lambda o=o: f(np.ones((5, 3)), order=o)
            cases[f"order {o!r}, separate"] = lambda o=o: f(roll=a, order=o)
    name = ch.choose("call", list(cases), free=True)
    ch.state(name)
    ch.raises(cases[name], "accepted: " + name)


def scenarios(tier):
    return [
        Scenario("grid", grid),
        Scenario("layout", layout),
        Scenario("rejected", rejected),
        Scenario("many elements", lambda ch: layout(ch, BIG), 0 if tier == "quick" else 1),
    ]
