"""Registry and frame tree as a name map over any operation history."""
import contextlib
import gc
import io
import weakref

import numpy as np

from mc import ref
from mc.explore import BFSScenario, Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = ["single-threaded use",
               "histories: up to three names and two user-held frames",
               "large registries: up to 150 frames, registered in one of three shapes and changed once"]

NAMES = ("a", "b", "c")


def pose(k):
    t = np.array([1.0 + k, -0.5 * k, 2.0 - 0.3 * k])
    return t, ref.axang((1, 0.5 * k, 2 - k), 0.4 + 0.3 * k)


class Bad(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class World:
    """The real system next to the model."""

    def __init__(self):
        import rigid_body_motion as rbm

        self.rbm = rbm
        rbm.clear_registry()
        self.n = 0
        self.refs = []  # weak references to real frames by object number
        # model
        self.reg = {}  # name -> object
        self.name = []
        self.parent = []
        self.kids = []
        self.handles = []  # objects held by the user (model numbers)
        self.held = []  # the real frames

    # -- model helpers
    def add(self, name, parent):
        k = len(self.name)
        self.name.append(name)
        self.parent.append(parent)
        self.kids.append([])
        if parent is not None:
            self.kids[parent].append(k)
        return k

    def detach(self, k):
        p = self.parent[k]
        if p is not None:
            self.kids[p].remove(k)
        self.parent[k] = None

    def root(self, k):
        while self.parent[k] is not None:
            k = self.parent[k]
        return k

    def to_root(self, k):
        T = ref.Rigid()
        while self.parent[k] is not None:
            t, q = pose(k)
            T = T.then(ref.Rigid.from_tq(t, q))
            k = self.parent[k]
        return T

    def live(self):
        """Objects reachable from the registry or from user handles."""
        out = set()
        todo = list(self.reg.values()) + list(self.handles)
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            todo.extend(self.kids[k])
            if self.parent[k] is not None:
                todo.append(self.parent[k])
        return out

    # -- operations
    def ops(self, quick=True):
        out = []
        reg = sorted(self.reg)
        for n in NAMES:
            for p in [None] + reg:
                for u in (False, True):
                    out.append(("register_frame", n, p, u))
        if len(self.handles) < 2:
            for n in NAMES:
                for p in [None] + reg + [("held", i) for i in range(len(self.handles))]:
                    out.append(("construct", n, p))
        for i in range(len(self.handles)):
            out.append(("register", i, False))
            out.append(("register", i, True))
            out.append(("deregister", i))
            out.append(("drop", i))
        for n in NAMES:
            out.append(("deregister_frame", n))
        # take a handle to a registered frame
        if len(self.handles) < 2:
            for n in reg:
                if self.reg[n] not in self.handles:
                    out.append(("hold", n))
        if reg:
            out.append(("clear",))
        return out

    def apply(self, op):
        """Run op on model and real system; raise Bad on disagreement."""
        want, real = self.model(op)
        try:
            real()
            got = "ok"
        except ValueError as e:
            got = "ValueError"
            msg = str(e)
        if got != want:
            raise Bad(f"{op[0]}: outcome", f"{op}: {got}, expected {want}")
        gc.collect(0)

    def model(self, op):
        rbm = self.rbm
        kind = op[0]
        if kind == "register_frame":
            _, n, p, u = op
            ok = n not in self.reg or u
            parent = None if p is None else self.reg[p]
            t, q = pose(len(self.name))
            kw = {} if p is None else dict(translation=t, rotation=q)

            def real():
                rbm.register_frame(n, p, update=u, **kw)
                self.refs.append(weakref.ref(rbm.registry[n]))

            if ok:
                k = self.add(n, parent)
                if n in self.reg:
                    self.detach(self.reg[n])
                self.reg[n] = k
            return "ok" if ok else "ValueError", real
        if kind == "construct":
            _, n, p = op
            rp = p
            if p is None:
                parent = None
            elif isinstance(p, tuple):
                parent = self.handles[p[1]]
                rp = self.held[p[1]]
            else:
                parent = self.reg[p]
            t, q = pose(len(self.name))
            kw = {} if p is None else dict(translation=t, rotation=q)

            def real():
                rf = rbm.ReferenceFrame(n, rp, **kw)
                self.held.append(rf)
                self.refs.append(weakref.ref(rf))

            self.handles.append(self.add(n, parent))
            return "ok", real
        if kind == "register":
            _, i, u = op
            k = self.handles[i]
            n = self.name[k]
            ok = n not in self.reg or u
            if ok:
                if n in self.reg and self.reg[n] != k:
                    self.detach(self.reg[n])
                self.reg[n] = k
            return ("ok" if ok else "ValueError",
                    lambda: self.held[i].register(update=u))
        if kind == "deregister":
            k = self.handles[op[1]]
            ok = self.reg.get(self.name[k]) == k
            if ok:
                del self.reg[self.name[k]]
            return "ok" if ok else "ValueError", lambda: self.held[op[1]].deregister()
        if kind == "deregister_frame":
            ok = op[1] in self.reg
            self.reg.pop(op[1], None)
            return "ok" if ok else "ValueError", lambda: rbm.deregister_frame(op[1])
        if kind == "hold":
            self.handles.append(self.reg[op[1]])
            return "ok", lambda: self.held.append(rbm.registry[op[1]])
        if kind == "drop":
            del self.handles[op[1]]
            def real():
                del self.held[op[1]]
                gc.collect()
            return "ok", real
        if kind == "clear":
            self.reg.clear()
            return "ok", rbm.clear_registry
        raise AssertionError(op)

    # -- observation
    def check(self):
        rbm = self.rbm
        steps = 0
        if set(rbm.registry) != set(self.reg):
            raise Bad("registry names", f"{sorted(rbm.registry)} != {sorted(self.reg)}")
        real = {}
        for k in self.live():
            rf = self.refs[k]()
            if rf is None:
                raise Bad("frame vanished", f"object {k} ({self.name[k]})")
            real[k] = rf
        for n, k in self.reg.items():
            if rbm.registry[n] is not real[k]:
                raise Bad("name maps to another frame", n)
        for k, rf in real.items():
            p = self.parent[k]
            if rf.name != self.name[k]:
                raise Bad("frame name", f"{rf.name} != {self.name[k]}")
            if rf.parent is not (None if p is None else real[p]):
                raise Bad("parent", f"{self.name[k]}: {rf.parent}, expected "
                          f"{None if p is None else self.name[p]}")
            ids = sorted(id(c) for c in rf.children)
            if ids != sorted(id(real[c]) for c in self.kids[k]):
                raise Bad("children", f"{self.name[k]}: {rf.children}, expected "
                          f"{[self.name[c] for c in self.kids[k]]}")
        names = sorted(self.reg)
        args = [(n, self.reg[n]) for n in names] + [
            (h, k) for h, k in zip(self.held, self.handles)]
        # transforms between everything that can be named
        for a, ka in args:
            for b, kb in args:
                steps += 1
                if self.root(ka) != self.root(kb):
                    try:
                        r = rbm.lookup_transform(a, b)
                    except Exception:
                        continue
                    raise Bad("transform across trees", f"{a}->{b}: {r}")
                T = self.to_root(ka).then(self.to_root(kb).inv())
                t, q = rbm.lookup_transform(a, b)
                if not ref.close(t, T.t) or not ref.same_rot(q, T.R):
                    raise Bad("transform", f"{a}->{b}\n" + cmp(t, T.t)())
        for n in NAMES:
            if n not in self.reg:
                steps += 1
                for call in (lambda: rbm.lookup_transform(n, n),
                             lambda: rbm.ReferenceFrame(None, n),
                             lambda: rbm.render_tree(n)):
                    try:
                        call()
                    except ValueError:
                        continue
                    raise Bad("removed name resolves", n)
        for a, k in args:
            steps += 1
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                rbm.render_tree(a)
            got = sorted((len(l) - 1) // 4 * 1000 + ord(l[-1])
                         for l in buf.getvalue().splitlines())
            want = []
            todo = [(k, 0)]
            while todo:
                x, d = todo.pop()
                want.append(d * 1000 + ord(self.name[x]))
                todo.extend((c, d + 1) for c in self.kids[x])
            if got != sorted(want):
                raise Bad("rendered tree", f"{a}:\n{buf.getvalue()}")
        return steps

    def key(self):
        """Canonical form of the model state (poses are symmetric data)."""
        live = self.live()
        num = {}

        def visit(k):
            if k in num:
                return
            num[k] = len(num)
            if self.parent[k] is not None:
                visit(self.parent[k])
            for c in sorted(self.kids[k], key=lambda c: (self.name[c], c)):
                visit(c)

        for n in sorted(self.reg):
            visit(self.reg[n])
        for h in self.handles:
            visit(h)
        inv = sorted(num, key=num.get)
        return (
            tuple((n, num[self.reg[n]]) for n in sorted(self.reg)),
            tuple(num[h] for h in self.handles),
            tuple((self.name[k], None if self.parent[k] is None else num[self.parent[k]])
                  for k in inv),
        )


def expand(history):
    w = World()
    for op in history:
        w.apply(op)
    ops = w.ops()
    out = []
    base = None
    for op in ops:
        w = World()
        vio = None
        steps = 1
        try:
            for o in history:
                w.apply(o)
            if base is None:
                base = True
            w.apply(op)
            steps += w.check()
            # the answers do not depend on having been asked before
            key = w.key()
        except Bad as b:
            vio, key = (b.key, b.msg), None
        except Exception as e:
            import traceback

            vio, key = (f"exception:{type(e).__name__}", traceback.format_exc(limit=-6)), None
        out.append((op, key, vio, steps))
        w.held.clear()
        del w
    return out


SHAPES = {"chain": lambda i: i - 1, "star": lambda i: 0, "binary": lambda i: (i - 1) // 2}
CHANGES = ["none", "every third removed", "all but the last removed", "leaf replaced",
           "all removed and registered again", "cleared and registered again", "removed by object"]


def many(ch):
    """Large registries: every name still denotes its frame after a change."""
    rbm = fresh()
    n = ch.choose("frames", [20, 65, 150], free=True)
    shape = ch.choose("shape", list(SHAPES), free=True)
    change = ch.choose("change", CHANGES, free=True)
    name = {"numbers": lambda i: str(i), "words": lambda i: f"frame {i * 7 % n:03d}",
            "nested": lambda i: "/".join(["a", "b"][: 1 + i % 2] + [str(i)])}[
        ch.choose("names", ["numbers", "words", "nested"], free=True)]
    ch.state(n, shape, change, name(1))
    par = SHAPES[shape]
    names = [name(i) for i in range(n)]
    P = {}  # name -> pose wrt parent

    def add(i, k=0):
        t, q = pose((i + k) % 7)
        kw = {}
        if i:
            kw = dict(parent=names[par(i)], translation=t, rotation=q)
            P[names[i]] = ref.Rigid(ref.qmat(q), t)
        rbm.register_frame(names[i], update=k > 0, **kw)

    for i in range(n):
        add(i)
    frames = [rbm.registry[x] for x in names]
    gone = set()
    if change == "every third removed":
        gone = set(names[::3])
        for x in names[::3]:
            rbm.deregister_frame(x)
    elif change == "all but the last removed":
        gone = set(names[:-1])
        for x in names[:-1]:
            rbm.deregister_frame(x)
    elif change == "removed by object":
        gone = set(names[n // 2 :])
        for f in frames[n // 2 :]:
            f.deregister()
    elif change == "leaf replaced":
        add(n - 1, 3)
        frames[-1] = rbm.registry[names[-1]]
    elif change == "all removed and registered again":
        for x in names[::-1]:
            rbm.deregister_frame(x)
        ch.check(len(rbm.registry) == 0, "registry names", lambda: str(list(rbm.registry)))
        for f in frames:
            f.register()
    elif change.startswith("cleared"):
        rbm.clear_registry()
        ch.check(len(rbm.registry) == 0, "registry names", lambda: str(list(rbm.registry)))
        for i in range(n):
            add(i)
        frames = [rbm.registry[x] for x in names]
    ch.check(set(rbm.registry) == set(names) - gone, "registry names",
             lambda: f"{sorted(set(rbm.registry) ^ (set(names) - gone))}")
    roots = {names[0]: ref.Rigid(np.eye(3), np.zeros(3))}
    for i in range(1, n):
        roots[names[i]] = P[names[i]].then(roots[names[par(i)]])
    for i, (x, f) in enumerate(zip(names, frames)):
        ch.step()
        if x in gone:
            ch.raises(lambda: rbm.lookup_transform(x, names[-1]), "removed name resolves", ValueError)
        else:
            ch.check(rbm.registry[x] is f, "name maps to another frame", x)
        ch.check(f.name == x and (f.parent is (frames[par(i)] if i else None)), "parent", x)
        want = {names[j] for j in range(1, n) if par(j) == i}
        got = [c.name for c in f.children]
        ch.check(len(got) == len(want) and set(got) == want, "children", lambda: f"{x}: {got}")
        # to the root and to the last frame, removed or not
        for y, g in ((names[0], frames[0]), (names[-1], frames[-1])):
            T = roots[x].then(roots[y].inv())
            a, b = (f if x in gone else x), (g if y in gone else y)
            t, q = rbm.lookup_transform(a, b)
            size = 1 + np.abs(roots[x].t).max() + np.abs(roots[y].t).max()
            ch.check(np.allclose(t, T.t, atol=1e-9 * size) and ref.same_rot(q, T.R), "transform",
                     lambda: f"{x}->{y}\n" + cmp(t, T.t)())
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        rbm.render_tree(frames[0])
    got = sorted(buf.getvalue().splitlines(), key=len)
    ch.check(len(got) == n and all(any(l.endswith(x) for l in got) for x in names),
             "rendered tree", buf.getvalue)
    ch.outcome(n, shape, change)


def scenarios(tier):
    gc.collect()
    gc.freeze()
    return [BFSScenario("histories", expand, 5 if tier == "quick" else 6),
            Scenario("many frames", many)]
