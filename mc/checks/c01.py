"""Static composition over all small trees."""
import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import STORAGE, cmp, fresh, parent_vectors

ASSUMPTIONS = ["rotations are non-zero quaternions; and quaternion products"]

S = np.sqrt(0.5)
GEN = [
    ((1.0, -2.0, 0.5), (0.5, 0.5, -0.5, 0.5)),
    ((-0.25, 3.0, 1.0), tuple(ref.axang((1, 2, 3), 0.7))),
    ((2.0, 0.125, -1.5), tuple(ref.axang((-1, 0.5, 2), 2.3))),
    ((0.3, 0.6, -4.0), tuple(ref.axang((0, 1, -1), -1.1))),
]


def pose_options(k):
    t, q = GEN[k]
    q = np.array(q)
    return {
        "generic": (t, q),
        "none": (None, None),
        "t-only": (t, None),
        "r-only": (None, q),
        "zquarter": (t, (S, 0.0, 0.0, S)),
        "xhalf": (t, (0.0, 1.0, 0.0, 0.0)),
        "negated": (t, -q),
        "scaled": (t, 2.0 * q),
        "int": ([1, 2, 3], [0, 0, 1, 0]),
        "int-scaled": ([4, 0, -3], [1, 1, 1, 0]),
        "list": (list(t), [float(x) for x in q]),
        "float32": (np.array(t, np.float32), np.array([S, 0, S, 0], np.float32)),
        "tiny": ((1e-7, 0.0, 2e-7), ref.axang((1, 1, 0), 1e-5)),
        "far": ((1e4, -2e4, 3e4), q),
    }


def pose_types(k):
    """Other norms, angles, types and memory layouts of the same."""
    t, q = GEN[k]
    q = np.array(q)
    return {
        "generic": (t, q),
        "norm 1e-6": (t, 1e-6 * q),
        "norm 1e8": (t, -1e8 * q),
        "half turn": (t, ref.axang((1, 2, -2), np.pi)),
        "near half turn": (t, ref.axang((1, 2, -2), np.pi - 1e-6)),
        "full turn": (t, (-1.0, 0.0, 0.0, 0.0)),
        "zero translation": ((0.0, 0.0, 0.0), q),
        "float16": (np.array([1, -2, 0.5], np.float16), np.array([0.5, 0.5, -0.5, 0.5], np.float16)),
        "uint8": (np.array([200, 0, 90], np.uint8), np.array([1, 0, 1, 1], np.uint8)),
        "int8": (np.array([100, -90, 90], np.int8), np.array([100, 0, -100, 100], np.int8)),
        "strided": tuple(map(STORAGE["strided"], (np.array(t), q))),
        "reversed": tuple(map(STORAGE["reversed"], (np.array(t), q))),
        "read only": tuple(map(STORAGE["read only"], (np.array(t), q))),
        "big endian": tuple(map(STORAGE["big endian"], (np.array(t), q))),
    }


def edge(t, q, inverse):
    t = np.zeros(3) if t is None else np.asarray(t, float)
    q = np.array([1.0, 0, 0, 0]) if q is None else np.asarray(q, float)
    m = ref.Rigid.from_tq(t, q)
    return m.inv() if inverse else m


# names identify frames in the registry only
CONSTRUCT = {"register_frame": "register_frame", "object": "object",
             "object+register": "object+register", "objects without names": "object",
             "objects of one name": "object", "objects of one name, last registered": "object"}


def build(ch, rbm, parents, opts):
    """Create frames; returns (objects, pose-to-root, root index)."""
    naming = ch.choose("construct", list(CONSTRUCT))
    how = CONSTRUCT[naming]
    frames, poses, roots = [], [], []
    for i, p in enumerate(parents):
        name = f"f{i}"
        if p is None:
            kw = {}
            m, root = ref.Rigid(), i
            par = None
        else:
            t, q = ch.choose(f"pose{i}", opts(i))
            inv = ch.flag(f"inverse{i}")
            kw = dict(translation=t, rotation=q)
            if inv:
                kw["inverse"] = True
            m = edge(t, q, inv).then(poses[p])
            root = roots[p]
            par = frames[p]
            if how != "object" and ch.flag(f"parent{i} by name"):
                par = f"f{p}"
        if how == "register_frame":
            rbm.register_frame(name, par, **kw)
            f = rbm.registry[name]
        else:
            if naming == "objects without names":
                name = None
            elif naming.startswith("objects of one name"):
                name = "f"
            f = rbm.ReferenceFrame(name, par, **kw)
            if how != "object" or naming.endswith("last registered") and i == len(parents) - 1:
                f.register()
        frames.append(f)
        poses.append(m)
        roots.append(root)
    return frames, poses, roots, how


PTS = np.array([[1.0, 2.0, 3.0], [0.0, 0.0, 0.0], [-1.0, 0.5, 2.0]])


def check_all_pairs(ch, rbm, frames, poses, roots, how, via):
    n = len(frames)
    res = {}
    for i in range(n):
        for j in range(n):
            a, b = frames[i], frames[j]
            if via in ("name", "pose-name") and how != "object":
                a, b = a.name, b.name
            if roots[i] != roots[j]:
                ch.raises(lambda: rbm.lookup_transform(a, b), "different-trees")
                ch.raises(
                    lambda: rbm.transform_points(PTS, into=b, outof=a),
                    "different-trees-points",
                )
                ch.raises(
                    lambda: rbm.transform_vectors(PTS, into=b, outof=a),
                    "different-trees-vectors",
                )
                continue
            want = poses[i].then(poses[j].inv())
            if via in ("pose", "pose-name"):
                t, r, ts = rbm.lookup_pose(a, b, return_timestamps=True)
            elif via == "method":
                t, r, ts = a.lookup_transform(b)
            else:
                t, r, ts = rbm.lookup_transform(a, b, return_timestamps=True)
            ch.step()
            tol = 1e-8 if np.max(np.abs(want.t)) < 1e3 else 1e-7
            ch.check(ts is None, "timestamps-static", f"{i}->{j}: ts={ts}")
            ch.check(
                ref.close(t, want.t, tol), "translation",
                lambda: f"f{i}->f{j}: " + cmp(t, want.t)(),
            )
            ch.check(
                ref.same_rot(r, want.R, 1e-7), "rotation",
                lambda: f"f{i}->f{j}: " + cmp(ref.qmat(r), want.R)(),
            )
            res[i, j] = (np.asarray(t), np.asarray(r))
            pts = rbm.transform_points(PTS, into=b, outof=a)
            ch.step()
            ch.check(
                ref.close(pts, want.point(PTS), tol), "points",
                lambda: f"f{i}->f{j}: " + cmp(pts, want.point(PTS))(),
            )
            vec = rbm.transform_vectors(PTS, into=b, outof=a)
            ch.step()
            ch.check(
                ref.close(vec, want.vector(PTS), 1e-7), "vectors",
                lambda: f"f{i}->f{j}: " + cmp(vec, want.vector(PTS))(),
            )
            ch.outcome(np.round(want.t, 4).tolist(), np.round(want.R, 4).tolist())
    # chain consistency of the reported transforms themselves
    for tree in set(roots):
        m = [i for i in range(n) if roots[i] == tree]
        T = np.array([[res[i, j][0] for j in m] for i in m], float)
        Q = np.array([[res[i, j][1] for j in m] for i in m], float)
        M = ref.qmat(Q)
        # axes: from, via, to
        ch.step(len(m) ** 3)
        tc = np.einsum("jkab,ijb->ijka", M, T) + T[None]
        t3 = np.broadcast_to(T[:, None], tc.shape)
        bad = np.any(np.abs(tc - t3) > 1e-6 * (1 + np.abs(t3)), -1)
        Mc = np.einsum("jkab,ijbc->ijkac", M, M)
        M3 = np.broadcast_to(M[:, None], Mc.shape)
        bad |= np.any(np.abs(Mc - M3) > 1e-6 * (1 + np.abs(M3)), (-1, -2))
        ch.check(not bad.any(), "chain", lambda: f"from, via, to: {np.argwhere(bad)[0]}")
        # the quaternions themselves compose and invert as well
        qc = ref.qmul(Q[None], Q[:, :, None])
        q3 = np.broadcast_to(Q[:, None], qc.shape)
        size = 1e-6 * np.maximum(1.0, np.abs(qc).max(-1))
        bad = np.minimum(np.abs(q3 - qc).max(-1), np.abs(q3 + qc).max(-1)) > size
        ch.check(not bad.any(), "chain of quaternions",
                 lambda: f"from, via, to: {np.argwhere(bad)[0]}: {q3[bad][0]} != {qc[bad][0]}")


def scen(n, opts=pose_options):
    def fn(ch):
        rbm = fresh()
        parents = ch.choose("tree", parent_vectors(n), free=True)
        parents = (None,) + parents
        frames, poses, roots, how = build(
            ch, rbm, parents, lambda i: opts(i - 1)
        )
        via = ch.choose("via", ["object", "name", "method", "pose", "pose-name"])
        ch.state(parents, tuple(p[4] for p in ch.points))
        check_all_pairs(ch, rbm, frames, poses, roots, how, via)
    fn.__name__ = f"{opts.__name__}{n}"
    return fn


def forest(ch):
    """Several roots: transforms within a tree only."""
    rbm = fresh()
    n = 4
    parents = [None]
    for i in range(1, n):
        parents.append(ch.choose(f"parent{i}", [None] + list(range(i)), free=True))
    frames, poses, roots, how = build(
        ch, rbm, parents, lambda i: pose_options(i - 1)
    )
    via = ch.choose("via", ["object", "name", "method", "pose"])
    ch.state(tuple(parents), tuple(p[4] for p in ch.points))
    check_all_pairs(ch, rbm, frames, poses, roots, how, via)


def deep(ch):
    """One long chain, all poses generic, every inverse pattern."""
    rbm = fresh()
    n = 6
    rbm.register_frame("f0")
    frames, poses, roots = [rbm.registry["f0"]], [ref.Rigid()], [0]
    for i in range(1, n):
        t, q = GEN[(i - 1) % 4]
        inv = ch.flag(f"inverse{i}", free=True)
        rbm.register_frame(f"f{i}", f"f{i-1}", t, q, inverse=inv)
        frames.append(rbm.registry[f"f{i}"])
        poses.append(edge(t, q, inv).then(poses[-1]))
        roots.append(0)
    ch.state(tuple(p[4] for p in ch.points))
    check_all_pairs(ch, rbm, frames, poses, roots, "register_frame", "name")


def long(ch):
    """Much longer paths than any realistic tree."""
    rbm = fresh()
    n = ch.choose("frames", [30, 300, 1200], free=True)
    inv = ch.choose("inverse", {"none": lambda i: False, "all": lambda i: True,
                                "every other": lambda i: i % 2 == 1}, free=True)
    two = ch.flag("two branches", free=True)
    a, b = ch.choose("query", {"up": ("last", "first"), "down": ("first", "last"),
                               "part": ("last", "middle"), "back": ("middle", "last")}, free=True)
    ch.state(tuple(p[4] for p in ch.points))
    rbm.register_frame("f0")
    poses = [ref.Rigid()]
    for i in range(1, n):
        t, q = GEN[(i - 1) % 4]
        p = max(i - 2, 0) if two else i - 1
        rbm.register_frame(f"f{i}", f"f{p}", t, q, inverse=inv(i))
        poses.append(edge(t, q, inv(i)).then(poses[p]))
    at = {"first": 0, "middle": n // 2, "last": n - 1}
    i, j = at[a], at[b]
    want = poses[i].then(poses[j].inv())
    t, r = rbm.lookup_transform(f"f{i}", f"f{j}")
    pts = rbm.transform_points(PTS, into=f"f{j}", outof=f"f{i}")
    ch.step(2)
    tol = 1e-9 * n
    ch.check(ref.close(t, want.t, tol), "translation", cmp(t, want.t))
    ch.check(ref.same_rot(r, want.R, tol), "rotation", lambda: cmp(ref.qmat(r), want.R)())
    ch.check(ref.close(pts, want.point(PTS), tol), "points", cmp(pts, want.point(PTS)))
    ch.outcome(np.round(want.t, 3).tobytes())


def scenarios(tier):
    q = tier == "quick"
    out = [
        Scenario("trees-2", scen(2), 4 if q else None),
        Scenario("trees-3", scen(3), 3 if q else 4),
        Scenario("trees-4", scen(4), 2 if q else 3),
        Scenario("forest-4", forest, 1 if q else 2),
        Scenario("chain-6", deep, None),
        Scenario("types-2", scen(2, pose_types), None),
        Scenario("types-3", scen(3, pose_types), 2 if q else 3),
        Scenario("long paths", long, None),
        Scenario("trees-5", scen(5), 1 if q else 2),
    ]
    return out
