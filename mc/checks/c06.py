"""Rejected operations leave no trace."""
import contextlib
import copy
import gc
import io

import numpy as np
import xarray as xr

from mc import ref
from mc.explore import Scenario
from mc.util import fresh

ASSUMPTIONS = ["single-threaded use"]

T6 = np.arange(6.0)
TR6 = np.stack((T6, T6**2, -T6), -1)
Q6 = np.array([ref.axang((1, 2, 3), 0.3 * k + 0.1) for k in range(6)])
T1 = np.array([1.0, 2.0, 3.0])
Q1 = ref.axang((1, 1, 0), 0.5)


class Env:
    def __init__(self):
        self.rbm = fresh()
        self.held = {}

    # valid operations -----------------------------------------------------
    def v_world(self):
        self.rbm.register_frame("world", update=True)

    def v_static(self):
        self.rbm.register_frame("a", "world", T1, Q1, update=True)

    def v_moving(self):
        self.rbm.register_frame("b", "world", TR6, Q6, T6, update=True)

    def v_nested(self):
        self.rbm.register_frame("c", "a", TR6, Q6, T6, discrete=True, update=True)

    def v_held(self):
        self.held["h"] = self.rbm.ReferenceFrame("a", "world", T1 * 2, Q1)

    def v_held_register(self):
        self.held["h"].register(update=True)

    def v_anonymous(self):
        self.held["n"] = self.rbm.ReferenceFrame(None, "world", T1, Q1)

    def v_other_root(self):
        self.rbm.register_frame("z", update=True)

    def v_dereg(self):
        self.rbm.deregister_frame("a")

    def v_clear(self):
        self.rbm.clear_registry()

    def enabled(self):
        r = self.rbm.registry
        out = ["v_world", "v_other_root"]
        if "world" in r:
            out += ["v_static", "v_moving", "v_held", "v_anonymous"]
        if "a" in r:
            out += ["v_nested", "v_dereg"]
        if "h" in self.held:
            out += ["v_held_register"]
        if r:
            out += ["v_clear"]
        return out

    # observation ----------------------------------------------------------
    def frames(self):
        seen, todo = [], list(self.rbm.registry.values()) + list(self.held.values())
        while todo:
            f = todo.pop(0)
            if any(f is g for g in seen):
                continue
            seen.append(f)
            todo += list(f.children)
            if f.parent is not None:
                todo.append(f.parent)
        return seen

    def snap(self):
        fr = self.frames()
        num = {id(f): i for i, f in enumerate(fr)}

        def arr(x):
            if x is None:
                return None
            x = np.asarray(x)
            return (str(x.dtype), x.shape, x.tobytes())

        trees = []
        for f in fr:
            if f.parent is None:
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    self.rbm.render_tree(f)
                trees.append(buf.getvalue())
        return (
            sorted((n, num[id(f)]) for n, f in self.rbm.registry.items()),
            [(f.name, None if f.parent is None else num[id(f.parent)],
              [num[id(c)] for c in f.children], arr(f.translation), arr(f.rotation),
              arr(f.timestamps), f.discrete) for f in fr],
            trees,
        )


DS = xr.Dataset(
    {"t": (("time", "x"), TR6), "q": (("time", "w"), Q6), "t2": (("time", "w"), Q6)},
    {"time": T6},
)


def invalid_calls(env):
    """name -> (callable taking args, args); every one must be rejected."""
    rbm = env.rbm
    RF = rbm.ReferenceFrame
    r = rbm.registry
    c = {}

    def both(label, *args, **kw):
        c["register_frame: " + label] = (lambda *a, **k: rbm.register_frame("new", *a, **k), args, kw)
        c["ReferenceFrame: " + label] = (lambda *a, **k: RF("new", *a, **k), args, kw)
        for n in sorted(r)[:2]:
            c[f"update {n}: " + label] = (
                lambda *a, **k: rbm.register_frame(n, *a, update=True, **k), args, kw)

    both("unknown parent", "nope", T1, Q1)
    both("parent of wrong type", 7, T1, Q1)
    both("translation without parent", None, T1)
    both("rotation without parent", None, None, Q1)
    both("timestamps without parent", None, None, None, T6)
    both("discrete without timestamps or parent", discrete=True)
    for p in [n for n in ("world", "a", "b") if n in r][:2]:
        both(f"translation shape under {p}", p, T1[:2], Q1)
        both(f"rotation shape under {p}", p, T1, Q1[:3])
        both(f"rotation matrix under {p}", p, T1, np.eye(3))
        both(f"moving translation without timestamps under {p}", p, TR6, Q1)
        both(f"length mismatch under {p}", p, TR6, Q6, T6[:-1])
        both(f"rotation length mismatch under {p}", p, TR6, Q6[:-1], T6)
        both(f"2-d timestamps under {p}", p, TR6, Q6, T6[:, None])
        both(f"discrete without timestamps under {p}", p, T1, Q1, discrete=True)
        both(f"inverse with bad shape under {p}", p, T1[:1], Q1, inverse=True)
        both(f"bad translation value under {p}", p, "xyz", Q1)
        c[f"name None under {p}"] = (rbm.register_frame, (None, p, T1, Q1), {})
        c[f"unhashable name under {p}"] = (rbm.register_frame, ([1], p, T1, Q1), {})
        for n in sorted(r)[:3]:
            c[f"duplicate {n} under {p}"] = (rbm.register_frame, (n, p, T1, Q1), {})
            c[f"duplicate moving {n} under {p}"] = (
                rbm.register_frame, (n, p, TR6, Q6, T6), dict(discrete=True, inverse=True))
        c[f"from_dataset missing variable under {p}"] = (
            RF.from_dataset, (DS, "t", "zz", "time", p), {})
        c[f"from_dataset wrong variable under {p}"] = (
            RF.from_dataset, (DS, "t2", "q", "time", p), {})
        c[f"from_rotation_matrix under {p}"] = (RF.from_rotation_matrix, (np.eye(4), p), {})
        c[f"from_translation_dataarray under {p}"] = (
            RF.from_translation_dataarray, (DS.q, "time", p), {})
        c[f"from_rotation_dataarray under {p}"] = (
            RF.from_rotation_dataarray, (DS.t, "time", p), {})
    c["from_rotation_matrix unknown parent"] = (RF.from_rotation_matrix, (np.eye(3), "nope"), {})
    c["name None"] = (rbm.register_frame, (None,), {})
    for n in sorted(r):
        c[f"duplicate root {n}"] = (rbm.register_frame, (n,), {})
        c[f"lookup {n}->unknown"] = (rbm.lookup_transform, (n, "nope"), {})
        c[f"lookup unknown->{n}"] = (rbm.lookup_transform, ("nope", n), {})
        c[f"lookup {n}->int"] = (rbm.lookup_transform, (n, 3), {})
        c[f"points {n} wrong shape"] = (
            rbm.transform_points, (np.ones((4, 2)), n, n), {})
        c[f"points {n} timestamps mismatch"] = (
            rbm.transform_points, (np.ones((4, 3)), n, n), dict(timestamps=np.arange(3.0)))
        c[f"quaternions {n} wrong shape"] = (
            rbm.transform_quaternions, (np.ones((4, 3)), n, n), {})
        c[f"twist {n} unknown reference"] = (rbm.lookup_twist, (n, "nope"), {})
        c[f"twist {n} wrt itself"] = (rbm.lookup_twist, (n, n, n), {})
        c[f"linear velocity {n} bad what"] = (
            rbm.transform_linear_velocity, (np.ones(3), n, n), dict(what="abc"))
        c[f"linear velocity {n} no moving frame"] = (
            rbm.transform_linear_velocity, (np.ones(3), n, n), {})
        c[f"angular velocity {n} bad what"] = (
            rbm.transform_angular_velocity, (np.ones(3), n, n), dict(what="abc"))
        for m in sorted(r):
            if r[n].root is not r[m].root:
                c[f"disconnected {n}->{m}"] = (rbm.lookup_transform, (n, m), {})
                c[f"disconnected points {n}->{m}"] = (
                    rbm.transform_points, (np.ones(3), m, n), {})
                c[f"disconnected twist {n} wrt {m}"] = (rbm.lookup_twist, (n, m), {})
                c[f"disconnected velocity {n}->{m}"] = (
                    rbm.transform_angular_velocity, (np.ones(3), m, n), {})
    c["deregister unknown"] = (rbm.deregister_frame, ("nope",), {})
    for h, f in env.held.items():
        if f.name is None:
            c[f"register unnamed {h}"] = (f.register, (), {})
            c[f"register unnamed {h} update"] = (f.register, (), dict(update=True))
            c[f"deregister unnamed {h}"] = (f.deregister, (), {})
        elif r.get(f.name) is not f:
            if f.name in r:
                c[f"register duplicate {h}"] = (f.register, (), {})
            c[f"deregister unregistered {h}"] = (f.deregister, (), {})
        else:
            c[f"register registered {h}"] = (f.register, (), {})
    return c


def frozen(x):
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (xr.Dataset, xr.DataArray)):
        return ("xr", repr(x.to_dict()))
    if isinstance(x, (tuple, list)):
        return tuple(frozen(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, frozen(v)) for k, v in x.items())
    return repr(x)


def history(n):
    def fn(ch):
        env = Env()
        ops = []
        for i in range(n):
            op = ch.choose(f"op {i}", env.enabled(), free=True)
            ops.append(op)
            getattr(env, op)()
        calls = invalid_calls(env)
        name = ch.choose("rejected call", list(calls), free=True)
        follow = ch.choose("then", ["nothing"] + env.enabled(), free=True)
        call, args, kw = calls[name]
        gc.collect(0)
        before = env.snap()
        fa = frozen((args, kw))
        ch.state(before[0], tuple((f[0], f[1]) for f in before[1]), name)
        try:
            res = call(*args, **kw)
        except Exception as e:
            ch.outcome(name, type(e).__name__)
            e.__traceback__ = None
            del e
        else:
            ch.fail("accepted: " + name, f"{call} returned {res!r}")
        ch.step()
        gc.collect(0)
        after = env.snap()
        ch.check(before == after, "trace left by: " + name.split(":")[0],
                 lambda: f"{name}\nbefore {show(before)}\nafter {show(after)}")
        ch.check(frozen((args, kw)) == fa, "arguments modified: " + name, "")
        # a later operation behaves as if the rejected call had not happened
        if follow != "nothing":
            getattr(env, follow)()
            got = env.snap()
            other = Env()
            for op in ops + [follow]:
                getattr(other, op)()
            want = other.snap()
            ch.step()
            ch.check(got == want, "later operation affected",
                     lambda: f"{name} then {follow}\n{show(got)}\nexpected {show(want)}")

    return fn


def show(s):
    return str(s[0]) + " " + str([(f[0], f[1], f[2]) for f in s[1]])


def scenarios(tier):
    gc.collect()
    gc.freeze()
    out = [Scenario(f"after-{n}-operations", history(n)) for n in range(4)]
    return out if tier == "quick" else out + [Scenario("after-4-operations", history(4))]
