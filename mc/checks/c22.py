"""Plots show frames, points and vectors where they are."""
import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = [
    "three-dimensional matplotlib axes (Agg) whose limits are not inverted; limits and positions to 1e-6 of the plotted range",
    "positions and scale are judged through the projection matplotlib itself reports and in drawn artists",
]

T = {"a": (5.0, 0, 0), "b": (-1, 2, 30), "c": (0, -0.5, 0.25)}
R = {"a": ref.axang([0, 0, 1], np.pi / 2), "b": ref.axang([1, 2, -1], 2.1),
     "c": np.array([0, 1.0, 0, 0])}
PAR = {"a": "world", "b": "a", "c": "world"}


FRAMES = {}


def tree(rbm):
    FRAMES["world"] = rbm.ReferenceFrame("world")
    FRAMES["world"].register()
    for n in "abc":
        FRAMES[n] = rbm.ReferenceFrame(n, FRAMES[PAR[n]], T[n], tuple(R[n]))
        FRAMES[n].register()


def into(rf, world, p):
    """Point p from rf into world."""
    def up(f, p):
        while f != "world":
            p = ref.rot(R[f], p) + T[f]
            f = PAR[f]
        return p

    def path(f):
        return [f] if f == "world" else [f] + path(PAR[f])

    p = up(rf, np.asarray(p, float))
    for f in reversed(path(world)[:-1]):
        p = ref.rot(ref.qinv(R[f]), p - T[f])
    return p


class Sheet:
    """The axes, everything plotted on it so far and where it must be."""

    def __init__(self, ax=None):
        self.ax = ax
        self.must = []  # points that must be visible
        self.arrows = []  # (artist, start, end)
        self.lines = []  # (artist, xyz)
        self.quivers = []  # (artist, starts, ends)

    def limits(self):
        return np.array([self.ax.get_xlim3d(), self.ax.get_ylim3d(), self.ax.get_zlim3d()], float)

    def project(self, p, elev, azim):
        from mpl_toolkits.mplot3d import proj3d

        ax = self.ax
        ax.view_init(elev=elev, azim=azim)
        p = np.atleast_2d(p)
        return np.stack(proj3d.proj_transform(p[:, 0], p[:, 1], p[:, 2], ax.get_proj())[:2], -1)

    def judge(self, ch):
        ax = self.ax
        lim = self.limits()
        ch.check(np.all(np.isfinite(lim)) and np.all(lim[:, 1] > lim[:, 0]), "limits", lambda: str(lim))
        size = np.ptp(lim, axis=1).max()
        for m in self.must:
            m = np.atleast_2d(m)
            m = m[np.isfinite(m).all(-1)]
            ok = np.all((m >= lim[:, 0] - 1e-6 * size) & (m <= lim[:, 1] + 1e-6 * size))
            ch.check(ok, "outside of the limits", cmp(m, lim))
        # scale: unit steps along the axes have the same projected length
        e = size * np.eye(3) / 4
        mid = lim.mean(axis=1)
        old = ax.elev, ax.azim
        typ = ax._focal_length
        ax.set_proj_type("ortho")
        side = self.project(np.array([mid, mid + e[1], mid + e[2]]), 0, 0)
        front = self.project(np.array([mid, mid + e[0], mid + e[2]]), 0, 90)
        ly, lz = np.linalg.norm(side[1:] - side[0], axis=-1)
        lx, lz2 = np.linalg.norm(front[1:] - front[0], axis=-1)
        ax._focal_length = typ
        ax.view_init(elev=old[0], azim=old[1])
        drawn = self.arrows or self.lines or self.quivers
        ch.check(not drawn or np.allclose([lx, lz, lz2], ly, rtol=1e-6), "scale", f"x {lx} y {ly} z {lz} {lz2}")
        for art, xyz in self.lines:
            got = np.asarray(art.get_data_3d(), float).T
            ch.check(got.shape == xyz.shape and np.allclose(got, xyz, equal_nan=True), "points", cmp(got, xyz))
        for art, s, e in self.quivers:
            seg = np.asarray(art._segments3d, float).reshape(-1, 2, 3)
            want = np.stack([e, s], 1)  # matplotlib draws from the tip
            ok = np.isfinite(want).all((1, 2))
            ch.check(len(seg) >= len(s) and np.allclose(seg[: len(s)][ok], want[ok], atol=1e-9),
                     "vectors", lambda: cmp(seg[: len(s)], want)())
        for art in [x[0] for x in self.arrows + self.lines + self.quivers]:
            ch.check(art.axes is ax and art.figure is ax.figure, "artist is not on the axes")

    def drawn(self, ch):
        """Every arrow is drawn where the projection of its ends is."""
        ax = self.ax
        ax.set_axis_off()
        ax.figure.set_dpi(20)
        for view in ((30, -60), (0, 0), (80, 10)):
            for art, s, e in self.arrows:
                want = self.project(np.array([s, e]), *view)
                ax.figure.canvas.draw() if art is self.arrows[0][0] else None
                got = np.array(art._posA_posB, float)
                ch.check(np.allclose(got, want, atol=1e-6), "arrow", cmp(got, want))
            ch.step(len(self.arrows))


def as_given(x, how):
    return {"array": np.asarray, "list": lambda v: np.asarray(v).tolist(),
            "tuple": lambda v: tuple(map(tuple, v)) if np.ndim(v) == 2 else tuple(v)}[how](x)


PTS = {"one": np.array([3.0, -4, 100]), "several": np.array([[0, 0, 0.5], [-7, 2, 1], [1, 1, 1.0]]),
       "with gaps": np.array([[1, 2, 3], [np.nan] * 3, [-2, 9, np.nan], [0, 0, -20.0]]),
       "integers": np.array([[1, 2, 300], [4, 5, 6]]), "none": np.zeros((0, 3)), "tiny": np.array([[1e-7, 0, 0]])}
VEC = {"one": np.array([0.0, 0, 40]), "several": np.array([[10.0, 0, 0], [0, -20, 0], [0, 0, 0]]),
       "integers": np.array([[3, 0, 4], [0, -6, 8]]), "none": np.zeros((0, 3))}
QUA = {"one": np.array([0.0, 1, 0, 0]),
       "several": np.array([[1.0, 0, 0, 0], ref.axang([1, 1, 1], 2.0), ref.axang([0, 1, 0], -0.3)])}


def do_frame(ch, rbm, S, rf, world, length, fn=None, names=(False, False), kw=None):
    import matplotlib.pyplot as plt

    fn = fn or rbm.plot.reference_frame
    kw = dict(kw or {})
    if length is not None:
        kw["arrow_len"] = length
    n = 1.0 if length is None else length
    get = lambda x, o: FRAMES[x] if o else x
    if world is not None:
        kw["world_frame"] = get(world, names[1])
    if S.ax is not None:
        kw["ax"] = S.ax
    arrows = fn(get(rf, names[0]), **kw)
    S.ax = arrows[0].axes
    ends = [into(rf, world, p) if world else np.asarray(p, float)
            for p in [np.zeros(3)] + [n * e for e in np.eye(3)]]
    ch.check(len(arrows) == 3, "number of arrows", len(arrows))
    from matplotlib.colors import to_rgba

    for a, e, c in zip(arrows, ends[1:], "rgb"):
        ch.check(to_rgba(a.get_edgecolor()) == to_rgba(c), "colour of the axis", a.get_edgecolor())
        S.arrows.append((a, ends[0], e))
    S.must.append(np.array(ends))
    ch.step()


def do_points(ch, rbm, S, arr, how="array", fn=None, **kw):
    fn = fn or rbm.plot.points
    if S.ax is not None:
        kw["ax"] = S.ax
    given = as_given(arr, how)
    keep = np.array(given)
    lines = fn(given, **kw)
    ch.check(np.array_equal(np.asarray(given), keep, equal_nan=True), "input modified")
    ch.check(len(lines) == 1, "number of lines", len(lines))
    S.ax = lines[0].axes
    S.lines.append((lines[0], np.atleast_2d(np.asarray(arr, float))))
    S.must.append(arr)
    ch.step()


def ends(base, vec, length=1.0, normalize=False, pivot="tail", **_):
    vec = np.asarray(vec, float)
    if normalize:
        n = np.linalg.norm(vec, axis=-1, keepdims=True)
        vec = vec / np.where(n == 0, 1, n)
    vec = vec * length
    o = {"tail": 0, "middle": 0.5, "tip": 1}[pivot]
    return base - o * vec, base + (1 - o) * vec


def do_vectors(ch, rbm, S, vec, base=None, how="array", fn=None, **kw):
    fn = fn or rbm.plot.vectors
    opt = dict(kw)
    if S.ax is not None:
        kw["ax"] = S.ax
    if base is not None:
        kw["base"] = as_given(base, how)
    col = fn(as_given(vec, how), **kw)
    S.ax = col.axes
    v = np.atleast_2d(np.asarray(vec, float))
    b = np.zeros_like(v) if base is None else np.atleast_2d(base)
    s, e = ends(b, v, **opt)
    S.quivers.append((col, s, e))
    S.must += [s, e]
    ch.step()


def do_quats(ch, rbm, S, q, base=None, how="array", fn=None, **kw):
    fn = fn or rbm.plot.quaternions
    opt = dict(kw)
    if S.ax is not None:
        kw["ax"] = S.ax
    if base is not None:
        kw["base"] = as_given(base, how)
    cols = fn(as_given(q, how), **kw)
    ch.check(len(cols) == 3, "number of collections", len(cols))
    S.ax = cols[0].axes
    qs = np.atleast_2d(np.asarray(q, float))
    b = np.zeros((len(qs), 3)) if base is None else np.atleast_2d(base)
    from matplotlib.colors import to_rgba

    for col, e, c in zip(cols, np.eye(3), "rgb"):
        col0 = np.asarray(col.get_edgecolor())
        ch.check(all(tuple(x[:3]) == to_rgba(c)[:3] for x in np.atleast_2d(col0)), "colour of the axis", col0)
        s, t = ends(b, ref.rot(qs, np.tile(e, (len(qs), 1))), **{"length": 0.5, **opt})
        S.quivers.append((col, s, t))
        S.must += [s, t]
    ch.step()


OPS = {
    "frame a": lambda ch, rbm, S: do_frame(ch, rbm, S, "a", None, None),
    "frame b in world": lambda ch, rbm, S: do_frame(ch, rbm, S, "b", "world", None),
    "frame c in b, short": lambda ch, rbm, S: do_frame(ch, rbm, S, "c", "b", 0.1),
    "frame world in a, long": lambda ch, rbm, S: do_frame(ch, rbm, S, "world", "a", 50.0),
    "one point": lambda ch, rbm, S: do_points(ch, rbm, S, PTS["one"]),
    "points": lambda ch, rbm, S: do_points(ch, rbm, S, PTS["several"]),
    "points with gaps": lambda ch, rbm, S: do_points(ch, rbm, S, PTS["with gaps"]),
    "no points": lambda ch, rbm, S: do_points(ch, rbm, S, PTS["none"]),
    "one vector": lambda ch, rbm, S: do_vectors(ch, rbm, S, VEC["one"]),
    "vectors at bases": lambda ch, rbm, S: do_vectors(ch, rbm, S, VEC["several"], PTS["several"]),
    "no vectors": lambda ch, rbm, S: do_vectors(ch, rbm, S, VEC["none"]),
    "one quaternion": lambda ch, rbm, S: do_quats(ch, rbm, S, QUA["one"], PTS["one"]),
    "quaternions": lambda ch, rbm, S: do_quats(ch, rbm, S, QUA["several"], PTS["several"]),
    "rejected": lambda ch, rbm, S: reject(ch, rbm, S),
}


def reject(ch, rbm, S):
    before = (len(S.ax.get_children()), S.limits().tolist())
    ch.raises(lambda: rbm.plot.points(np.zeros((2, 2)), ax=S.ax), "accepted: wrong shape")
    ch.raises(lambda: rbm.plot.vectors(np.zeros((2, 3)), np.zeros((3, 3)), S.ax), "accepted: base")
    ch.check(before == (len(S.ax.get_children()), S.limits().tolist()), "rejected call changed the axes")


def closing(fn):
    def run(ch):
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        plt.close("all")
        try:
            fn(ch)
        finally:
            plt.close("all")
    run.__name__ = fn.__name__
    return run


def histories(depth):
    @closing
    def sequences(ch):
        import matplotlib.pyplot as plt

        rbm = fresh()
        tree(rbm)
        S = Sheet(plt.figure().add_subplot(projection="3d"))
        seq = []
        for i in range(depth):
            op = ch.choose(f"operation {i + 1}", list(OPS), free=True)
            seq.append(op)
            OPS[op](ch, rbm, S)
            ch.state(*seq)
            S.judge(ch)
        S.drawn(ch)
        ch.outcome(np.round(S.limits(), 3).tobytes())
    return sequences


@closing
def preset(ch):
    """Axes the user has already used or limited."""
    import matplotlib.pyplot as plt

    rbm = fresh()
    tree(rbm)
    S = Sheet(plt.figure().add_subplot(projection="3d"))
    ax = S.ax
    how = ch.choose("axes", ["limited", "plotted", "wide", "limited and plotted", "azimuth",
                             "autoscale off", "2 axes"], free=True)
    if "plotted" in how:
        xyz = np.array([[100.0, 1, 1], [50, 3, -60]])
        ax.plot(*xyz.T)
        S.must.append(xyz)
    if how.startswith("limited"):
        ax.set_xlim(-1, 2)
        ax.set_zlim(10, 11)
        ax.set_ylim(0, 1)
        S.must = [np.array([[-1, 0.5, 10], [2, 0.5, 11]])]
    if how == "wide":
        ax.set_xlim(-1000, 2000)
        S.must.append(np.array([[-1000, 0.5, 0.5], [2000, 0.5, 0.5]]))
        ax.set_autoscale_on(False)
    if how == "azimuth":
        ax.view_init(elev=10, azim=123)
    if how == "autoscale off":
        ax.set_autoscale_on(False)
    other = None
    if how == "2 axes":
        other = ax.figure.add_subplot(122, projection="3d")
        before = (len(other.get_children()), other.get_xlim3d(), other.get_zlim3d())
    for i in range(2):
        op = ch.choose(f"operation {i + 1}", list(OPS), free=True)
        OPS[op](ch, rbm, S)
        ch.state(how, op, i)
        S.judge(ch)
    if other is not None:
        ch.check(before == (len(other.get_children()), other.get_xlim3d(), other.get_zlim3d()),
                 "another axes was changed")
    if how == "azimuth":
        ch.check((ax.elev, ax.azim) == (10, 123), "view", f"{ax.elev} {ax.azim}")
    S.drawn(ch)


@closing
def options(ch):
    """Parameters of a single call."""
    import matplotlib.pyplot as plt

    rbm = fresh()
    tree(rbm)
    kind = ch.choose("plot", ["frame", "points", "vectors", "quaternions"], free=True)
    own = ch.choose("axes", ["given", "new", "new, figsize"])
    S = Sheet(plt.figure().add_subplot(projection="3d") if own == "given" else None)
    kw = {"figsize": (3, 2)} if own == "new, figsize" else {}
    mod = ch.choose("entry", ["plot", "plotting"])
    name = {"frame": "reference_frame"}.get(kind, kind)
    if mod == "plot":
        fn = getattr(rbm.plot, name)
    else:
        import rigid_body_motion.plotting as pl

        fn = getattr(pl, "plot_" + name)
    figs = len(plt.get_fignums())
    if kind == "frame":
        rf = ch.choose("frame", ["b", "world", "a", "c"], free=True)
        world = ch.choose("world", [None, "world", "a", "b", "c"], free=True)
        length = ch.choose("arrow length", [None, 1.0, 0.01, 1000.0, 2, -1.0])
        names = ch.choose("frame object", [False, True]), ch.choose("world object", [False, True])
        ch.state(kind, own, mod, rf, world, length, names)
        do_frame(ch, rbm, S, rf, world, length, fn, names, kw)
    else:
        how = ch.choose("container", ["array", "list", "tuple"])
        kw.update(ch.choose("options", {
            "none": {}, "fmt": {"fmt": "ko"} if kind == "points" else {},
            "alpha": {"alpha": 0.5}, "width": {"linewidth": 2},
            "length": {"length": 3.0} if kind == "vectors" else {},
            "short": {"length": 0.25} if kind == "vectors" else {},
            "normalize": {"normalize": True} if kind != "points" else {},
            "normalize, length": {"normalize": True, "length": 7} if kind == "vectors" else {},
            "tip": {"pivot": "tip"} if kind != "points" else {},
            "middle, length": {"pivot": "middle", **({"length": 5.0} if kind == "vectors" else {})}
            if kind != "points" else {},
        }))
        if kind == "points":
            arr = ch.choose("points", PTS, free=True)
            ch.assume(how != "list" or len(arr))
            ch.assume(how != "tuple" or len(arr))
            do_points(ch, rbm, S, arr, how, fn, **kw)
        else:
            arr = ch.choose(kind, VEC if kind == "vectors" else QUA, free=True)
            ch.assume(how == "array" or len(arr))
            b = ch.choose("base", [None, "given", "far"], free=True)
            base = None
            if b:
                n = arr.shape[:-1]
                base = (PTS["several"] if b == "given" else 1e3 * PTS["several"] + 5e3)[: n[0] if n else 1]
                base = base if n else base[0]
            (do_vectors if kind == "vectors" else do_quats)(ch, rbm, S, arr, base, how, fn, **kw)
        ch.state(kind, own, mod, str(kw), how, np.shape(arr))
    ch.check(len(plt.get_fignums()) == figs + (own != "given"), "number of figures")
    if own == "new, figsize":
        ch.check(tuple(S.ax.figure.get_size_inches()) == (3, 2), "figure size")
    S.judge(ch)
    S.drawn(ch)
    if kind == "points" and "fmt" in kw:
        ln = S.lines[0][0]
        ch.check((ln.get_color(), ln.get_marker(), ln.get_linestyle()) == ("k", "o", "None"), "format")


def moving(rbm):
    t = np.arange(4.0)
    rbm.register_frame("moving", "world", np.ones((4, 3)), np.tile(R["b"], (4, 1)), t)
    rbm.register_frame("discrete", "world", np.ones((2, 3)), np.tile(R["b"], (2, 1)), t[1:3], discrete=True)
    rbm.register_frame("on moving", "moving", T["a"], tuple(R["a"]))
    rbm.register_frame("on moving 2", "on moving", T["b"], tuple(R["b"]))
    rbm.register_frame("on discrete", "discrete", T["a"], tuple(R["a"]))
    rbm.register_frame("one sample", "world", np.ones((1, 3)), np.tile(R["b"], (1, 1)), t[:1])


@closing
def rejected(ch):
    import matplotlib.pyplot as plt

    rbm = fresh()
    tree(rbm)
    moving(rbm)
    S = Sheet(plt.figure().add_subplot(projection="3d"))
    if ch.flag("something plotted before", free=True):
        do_points(ch, rbm, S, PTS["several"])
    p, ax = rbm.plot, S.ax
    cases = {}
    for n in ("moving", "discrete", "one sample"):
        for w in (None, "world", "a", n, "on moving"):
            cases[f"{n} in {w}"] = lambda n=n, w=w: p.reference_frame(n, w, ax)
    for n, w in [("on moving", "world"), ("on moving 2", "world"), ("on moving 2", "moving"),
                 ("world", "on moving"), ("a", "on moving 2"), ("on discrete", "world"),
                 ("a", "moving"), ("world", "discrete"), ("on discrete", "on moving"),
                 ("b", "one sample"), ("b", "on discrete")]:
        if (n, w) != ("on moving 2", "moving"):
            cases[f"{n} in {w}"] = lambda n=n, w=w: p.reference_frame(n, w, ax)
    cases["unknown frame"] = lambda: p.reference_frame("nope", None, ax)
    cases["unknown world"] = lambda: p.reference_frame("a", "nope", ax)
    iso = rbm.ReferenceFrame("isolated")
    cases["not connected"] = lambda: p.reference_frame(iso, "world", ax)
    for f in ("points", "vectors"):
        for shape in [(), (2,), (4,), (0,), (3, 2), (3, 4), (2, 3, 3), (1, 1, 3), (5, 1)]:
            cases[f"{f} {shape}"] = lambda f=f, s=shape: getattr(p, f)(np.ones(s), ax=ax)
    for shape in [(), (3,), (5,), (4, 3), (3, 5), (2, 3, 4), (1, 1, 4)]:
        cases[f"quaternions {shape}"] = lambda s=shape: p.quaternions(np.ones(s), ax=ax)
    for a, b in [((3,), (2, 3)), ((2, 3), (3,)), ((2, 3), (3, 3)), ((3, 3), (3, 2)), ((2, 3), (1, 3)),
                 ((3,), (4,)), ((3,), ()), ((3,), (1, 1, 3))]:
        cases[f"vectors {a} base {b}"] = lambda a=a, b=b: p.vectors(np.ones(a), np.ones(b), ax)
    for a, b in [((4,), (2, 3)), ((2, 4), (3,)), ((2, 4), (3, 3)), ((3, 4), (3, 4))]:
        cases[f"quaternions {a} base {b}"] = lambda a=a, b=b: p.quaternions(np.ones(a), np.ones(b), ax)
    name = ch.choose("call", list(cases), free=True)
    ch.state(name)
    before = (len(ax.get_children()), S.limits().tolist())
    ch.raises(cases[name], "accepted: " + name)
    ch.check(before == (len(ax.get_children()), S.limits().tolist()), "rejected call changed the axes")


@closing
def static_below_moving(ch):
    """A static frame can be plotted in a frame it does not move in."""
    import matplotlib.pyplot as plt

    rbm = fresh()
    tree(rbm)
    moving(rbm)
    S = Sheet(plt.figure().add_subplot(projection="3d"))
    world = ch.choose("world", ["moving", "on moving", None], free=True)
    ch.state(world)
    kw = {} if world is None else {"world_frame": world}
    ar = rbm.plot.reference_frame("on moving 2", ax=S.ax, **kw)
    p = np.concatenate([np.zeros((1, 3)), np.eye(3)])
    if world:
        p = ref.rot(R["b"], p) + T["b"]
    if world == "moving":
        p = ref.rot(R["a"], p) + T["a"]
    for a, e in zip(ar, p[1:]):
        S.arrows.append((a, p[0], e))
    S.must.append(p)
    S.judge(ch)
    S.drawn(ch)


@closing
def many(ch):
    """Thousands of points, vectors or quaternions in one call."""
    rbm = fresh()
    tree(rbm)
    n = ch.choose("number", [150, 1025, 3000], free=True)
    k = np.arange(n, dtype=float)
    p = np.stack((np.sin(k), 2 * np.cos(3 * k), 0.01 * k), -1)
    where = ch.choose("farthest one", ["first", "middle", "last"], free=True)
    p[{"first": 0, "middle": n // 2, "last": n - 1}[where]] = [40.0, -70, -300]
    v = np.roll(p, n // 3, axis=0)
    q = ref.axang((1, 2, -1), 0.37 * k)
    what = ch.choose("drawn", ["points", "vectors", "vectors at bases", "quaternions"], free=True)
    S = Sheet()
    S.ax = None
    ch.state(n, where, what)
    if what == "points":
        do_points(ch, rbm, S, p)
    elif what.startswith("vectors"):
        do_vectors(ch, rbm, S, v, p if "bases" in what else None)
    else:
        do_quats(ch, rbm, S, q, p)
    S.judge(ch)
    ch.outcome(np.round(S.limits(), 3).tobytes())


def scenarios(tier):
    out = [Scenario("sequences", histories(2)), Scenario("used axes", preset),
           Scenario("options", options, 1), Scenario("rejected", rejected),
           Scenario("static below moving", static_below_moving), Scenario("many", many)]
    if tier != "quick":
        out = [Scenario("sequences of three", histories(3)), Scenario("used axes", preset),
               Scenario("options", options, 3), Scenario("rejected", rejected),
               Scenario("static below moving", static_below_moving), Scenario("many", many)]
    return out
