"""Transform broadcaster: right sample, right order, for every history."""
import numpy as np

from mc import ref
from mc.checks.c16 import GRIDS, US, pose, seconds, to_stamps
from mc.explore import BFSScenario, Scenario
from mc.util import fresh

ASSUMPTIONS = [
    "stand-ins for the ROS packages with genpy message/time semantics (no ROS installation)",
    "numeric timestamps are seconds; times resolved to 1 us; at least two samples",
    "callbacks are delivered one at a time (schedules are C18)",
]

TKINDS = ["float", "ns", "us", "ms", "int", "float, epoch", "float32"]
# name -> (frame, base, how base is given, is the twist available)
TREES = {
    "moving child of root": ("mover", None),
    "moving, explicit base": ("mover", "world"),
    "static child of moving, wrt root": ("rider", "world"),
    "moving wrt frame on it": ("mover", "rider"),
    "two moving frames": ("second", "world"),
    "root wrt moving": ("world", "mover"),
    "static": ("rider", None),
    "static, sideways": ("post", "mast"),
    "discrete": ("steps", None),
}


def tree(rbm, tkind, grid):
    g = GRIDS[grid]
    t, q = pose(1, len(g))
    rbm.register_frame("world")
    rbm.register_frame("mover", "world", t, q, to_stamps(g, tkind))
    rbm.register_frame("rider", "mover", *pose(2))
    t2, q2 = pose(3, len(g))
    g2 = g + (g[-1] - g[0]) / 7
    if tkind == "int":
        g2 = g + 0.1
    rbm.register_frame("second", "mover", t2, q2, to_stamps(g2, tkind))
    rbm.register_frame("mast", "world", *pose(4))
    rbm.register_frame("post", "world", *pose(5))
    rbm.register_frame("steps", "world", t, q, to_stamps(g, tkind), discrete=True)


class Sim:
    """One broadcaster with its reference model."""

    def __init__(self, ch, rbm, w, which, tkind, grid, pose_, twist, sub, how):
        from rigid_body_motion.ros import ReferenceFrameTransformBroadcaster as B

        self.ch, self.w = ch, w
        frame, base = TREES[which]
        obj = rbm.registry[frame]
        bname = base or obj.parent.name
        bobj = rbm.registry[bname]
        self.frame, self.base = frame, bname
        t, q, ts = obj.lookup_transform(bobj)
        self.static = ts is None
        self.t, self.q = np.atleast_2d(t), np.atleast_2d(q)
        self.ts = None if self.static else seconds(ts)
        self.n = len(self.t)
        self.pose, self.twist = pose_, twist
        self.sub = {None: None, True: bname}.get(sub, sub)
        if twist:
            ch.assume(not self.static and self.n >= 4)
            self.lin, self.ang = obj.lookup_twist(bobj, obj)
        kw = dict(publish_pose=pose_, publish_twist=twist)
        if sub is not None:
            kw["subscribe"] = sub
        if how == "names":
            self.b = B(frame, base, **kw)
        else:
            self.b = B(obj, base=bobj if base else None, **kw)
        ch.step()
        self.cur = {0}
        self.stopped = False  # after stop(), incoming messages may be ignored
        self.mark = len(w.published)
        ch.check(self.mark == 0, "publishes before being told to", lambda: f"{w.published}")
        if not self.static:
            ch.check(len(self.b.timestamps) == self.n, "number of samples")
        ch.check(len(w.subscribers) == (sub is not None) and all(
            s.name == "/tf" for s in w.subscribers), "subscriptions")

    # -- oracle
    def fits(self, group, i):
        """Why the messages of one publication are not those of sample i."""
        want = {"/tf_static" if self.static else "/tf": 1}
        if self.pose:
            want[f"/{self.frame}/pose"] = 1
        if self.twist:
            want[f"/{self.frame}/twist"] = 1
        got = {}
        for topic, m in group:
            got[topic] = got.get(topic, 0) + 1
        if got != want:
            return f"topics {got}, expected {want}"
        at = 0.0 if self.static else self.ts[i]
        for topic, m in group:
            if topic.startswith("/tf"):
                if len(m.transforms) != 1:
                    return f"{len(m.transforms)} transforms"
                m = m.transforms[0]
                if (m.header.frame_id, m.child_frame_id) != (self.base, self.frame):
                    return f"frame ids {m}"
                v, r = m.transform.translation, m.transform.rotation
            elif topic.endswith("pose"):
                v, r = m.pose.position, m.pose.orientation
                if m.header.frame_id != self.base:
                    return f"frame id {m}"
            else:
                if m.header.frame_id != self.frame:
                    return f"frame id {m}"
                a, b = m.twist.linear, m.twist.angular
                if not np.allclose([a.x, a.y, a.z], self.lin[i], atol=1e-7):
                    return f"linear velocity {a}, {self.lin[i]}"
                if not np.allclose([b.x, b.y, b.z], self.ang[i], atol=1e-7):
                    return f"angular velocity {b}, {self.ang[i]}"
                v = None
            if abs(m.header.stamp.to_sec() - at) > US:
                return f"stamp {m.header.stamp} of {topic}, expected {at}"
            if v is not None:
                if not np.allclose([v.x, v.y, v.z], self.t[i], atol=1e-7):
                    return f"position {v}, {self.t[i]} ({topic})"
                if not ref.same_quat(np.array([r.w, r.x, r.y, r.z]), self.q[i], 1e-7):
                    return f"orientation {r}, {self.q[i]} ({topic})"
        return None

    def new(self):
        out = self.w.published[self.mark:]
        self.mark = len(self.w.published)
        return out

    def expect_one(self, cands, key):
        self.ch.step()
        group = self.new()
        ok = [i for i in cands if self.fits(group, i) is None]
        self.ch.check(ok, key, lambda: f"sample {sorted(cands)}: " + "; ".join(
            self.fits(group, i) for i in sorted(cands)) + f"\n{group}")
        return set(ok)

    def expect_none(self, key):
        self.ch.step()
        group = self.new()
        self.ch.check(not group, key, lambda: f"{group}")

    # -- operations
    def publish(self, i=None):
        if i is None:
            self.b.publish()
            self.cur = self.expect_one(self.cur, "publish()")
        else:
            self.b.publish(i)
            self.expect_one({i}, f"publish(i)")

    def incoming(self, items, at):
        """One /tf message with a transform per name in items."""
        import _ros

        msgs = []
        for c in items:
            m = _ros.TransformStamped()
            m.header.frame_id, m.child_frame_id = "somewhere", c
            m.header.stamp = _ros.Time.from_sec(max(at, 0))
            m.transform.rotation.w = 1.0
            msgs.append(m)
        before = len(self.w.published)
        for s in list(self.w.subscribers):
            s.callback(_ros.tfMessage(msgs))
        n = sum(c == self.sub for c in items)
        per = 1 + self.pose + self.twist
        got = self.w.published[before:]
        if self.stopped and not got:
            return
        self.ch.check(len(got) == n * per, "publications per incoming message",
                      lambda: f"{items} (subscribed {self.sub}): {len(got)} messages")
        cands = {0}
        if not self.static:
            d = abs(self.ts - at)
            cands = set(np.flatnonzero(d <= d.min() + US).tolist())
        for k in range(n):
            self.mark = len(self.w.published)
            group = got[k * per:(k + 1) * per]
            ok = [i for i in cands if self.fits(group, i) is None]
            self.ch.check(ok, "sample closest in time", lambda: f"at {at}, {cands}: {group}")
            self.ch.step()
        self.mark = len(self.w.published)

    def play(self, k, how):
        """Blocking playback, stopped during the k-th wait."""
        log = []  # ("sleep", d) markers between publications

        def on_sleep(d):
            log.append((len(self.w.published), d))
            if len(log) > k + 3:
                self.ch.fail("playback goes on after it was stopped", how)
            if len(log) >= k:
                if how == "stop":
                    self.b.stop()
                else:
                    self.w.shutdown = True

        self.w.on_sleep = on_sleep
        try:
            self.b.spin(block=True)
        finally:
            self.w.on_sleep = None
        self.w.shutdown = False
        if self.static:
            self.expect_one({0}, "static frame")
            return
        out = self.new()
        start = len(self.w.published) - len(out)
        per = 1 + self.pose + self.twist
        self.ch.check(len(out) == per * k, "number of publications",
                      lambda: f"{len(out)} messages in {k} waits")
        idx = None
        waited = {p: [d for q_, d in log if q_ == p] for p in {q_ for q_, d in log}}
        for j in range(k):
            group = out[j * per:(j + 1) * per]
            cands = self.cur if idx is None else {(i + 1) % self.n for i in idx}
            idx = {i for i in cands if self.fits(group, i) is None}
            self.ch.check(idx, "playback order", lambda: f"publication {j}, {sorted(cands)}: " + "; "
                          .join(self.fits(group, i) for i in cands) + f" {group}")
            self.ch.step()
            d = sum(waited.get(start + (j + 1) * per, []))
            want = {round(self.ts[i + 1] - self.ts[i], 9) if i + 1 < self.n else None for i in idx}
            self.ch.check(None in want and d >= 0 or any(
                x is not None and abs(d - x) < US for x in want), "waiting time",
                lambda: f"after sample {idx}: {d}, recorded {want}")
        self.cur = idx | {(i + 1) % self.n for i in idx}

    def enabled(self):
        n = self.n
        ops = [("publish",)] + [("publish", i) for i in sorted({0, n // 2, n - 1})]
        if self.sub is None:
            ops += [("play", k, "stop") for k in ((1, n, n + 2) if not self.static else (1,))]
            ops += [("play", 2, "shutdown")]
        else:
            ops += [("in", (self.sub,), x) for x in self.times()]
            ops += [("in", ("other",), 1.0), ("in", (self.sub + "x", self.sub[:-1]), 1.0),
                    ("in", ("x" + self.sub, self.sub[1:], "/" + self.sub, self.sub.upper()), 1.0),
                    ("in", (self.sub, "other", self.sub), 1.0), ("in", (), 1.0)]
        return ops + [("stop",)]

    def times(self):
        if self.static:
            return [0.0, 5.0]
        a, b = self.ts[0], self.ts[-1]
        m = self.n // 2
        return [a, a - 0.3, b + 100, self.ts[m], 0.4 * self.ts[m - 1] + 0.6 * self.ts[m],
                0.7 * self.ts[m - 1] + 0.3 * self.ts[m]]

    def do(self, op):
        if op[0] == "publish":
            self.publish(*op[1:])
        elif op[0] == "play":
            self.play(*op[1:])
        elif op[0] == "in":
            self.incoming(op[1], op[2])
        else:
            self.b.stop()
            self.stopped = True
            self.expect_none("messages while stopping")
            return
        if op[0] != "play":
            self.expect_none("unexpected messages")


def make(depth, full):
    def history(ch):
        import _ros

        rbm = fresh()
        w = _ros.reset()
        which = ch.choose("frame", list(TREES), free=True)
        sub = ch.choose("subscribe", [None, True, "camera"], free=True)
        pose_ = ch.flag("publish pose", free=True)
        twist = ch.flag("publish twist", free=True)
        tkind = ch.choose("timestamps", TKINDS)
        grid = ch.choose("grid", ["odd", "two", "tenths"] if full else ["odd", "two"])
        how = ch.choose("frames given by", ["names", "objects"])
        ch.assume(not which.startswith("static") or tkind == "float")
        # sub-second parts of the irregular grid need a fine resolution
        ch.assume(tkind != "int" or grid == "tenths" or which not in ("two moving frames",))
        ch.assume(tkind != "float32" or which == "moving child of root")
        tree(rbm, tkind, grid)
        s = Sim(ch, rbm, w, which, tkind, grid, pose_, twist, sub, how)
        for k in range(depth):
            op = ch.choose(f"op {k + 1}", [None] + s.enabled())
            if op is None:
                break
            s.do(op)
            ch.state(which, sub, pose_, twist, tkind, grid, how, tuple(sorted(s.cur)), op, k)
        ch.outcome(which, sub, tuple(sorted(s.cur)))

    return history


def every_index(ch):
    """publish(i) for every index, in both orders, with and without options."""
    import _ros

    rbm = fresh()
    w = _ros.reset()
    which = ch.choose("frame", [k for k in TREES if not k.startswith("static")], free=True)
    tkind = ch.choose("timestamps", TKINDS[:-1], free=True)
    grid = ch.choose("grid", ["odd", "tenths", "long", "two"], free=True)
    pt = ch.choose("pose and twist", [(False, False), (True, True)], free=True)
    npint = ch.flag("numpy index", free=True)
    ch.assume(tkind != "int" or grid == "tenths" or which != "two moving frames")
    tree(rbm, tkind, grid)
    s = Sim(ch, rbm, w, which, tkind, grid, pt[0], pt[1], None, "names")
    for i in list(range(s.n)) + list(range(s.n))[::-1]:
        s.publish(np.int64(i) if npint else i)
    ch.state(which, tkind, grid, pt, npint)
    ch.outcome(which, s.n)


def twist_options(ch):
    """The twist is smoothed as requested, for a rough motion."""
    import _ros
    from rigid_body_motion.ros import ReferenceFrameTransformBroadcaster as B

    rbm = fresh()
    w = _ros.reset()
    which = ch.choose("frame", ["mover", "rider"], free=True)
    base = ch.choose("base", [None, "world", "mast"], free=True)
    opts = {}
    cut = ch.choose("cutoff", [None, 0.25, 0.6], free=True)
    thr = ch.choose("outlier threshold", [None, 0.95, 1e3], free=True)
    pose_ = ch.flag("publish pose", free=True)
    tkind = ch.choose("timestamps", ["float", "ns", "float, epoch"], free=True)
    how = ch.choose("frames given by", ["names", "objects"], free=True)
    if cut is not None:
        opts["cutoff"] = cut
    if thr is not None:
        opts["outlier_thresh"] = thr
    n = 60
    k = np.arange(n)
    t = np.stack((0.3 * k, 0.1 * np.sin(1.3 * k), 0.002 * k**2), -1)
    t[20] += [0.5, -0.7, 0.2]
    q = ref.qmul(ref.axang((0, 0, 1), 0.05 * k), ref.axang((1, 2, -1), 0.1 * np.sin(2.2 * k)))
    rbm.register_frame("world")
    rbm.register_frame("mast", "world", *pose(4))
    rbm.register_frame("mover", "world", t, q, to_stamps(0.1 * k, tkind))
    rbm.register_frame("rider", "mover", *pose(2))
    ch.assume(which == "mover" or base)
    ch.state(which, base, cut, thr, pose_, tkind, how)
    frame, bobj = rbm.registry[which], rbm.registry[base or "world"]
    lin, ang = frame.lookup_twist(bobj, frame, **opts)
    kw = {"twist_" + a: v for a, v in opts.items()}
    args = (which, base) if how == "names" else (frame, bobj if base else None)
    b = B(*args, publish_pose=pose_, publish_twist=True, **kw)
    for i in (0, 1, 19, 20, 21, 30, n - 2, n - 1):
        mark = len(w.published)
        b.publish(i)
        ch.step()
        got = [m for topic, m in w.published[mark:] if topic == f"/{which}/twist"]
        ch.check(len(got) == 1 and len(w.published) - mark == 2 + pose_, "number of messages",
                 lambda: f"{w.published[mark:]}")
        a, c = got[0].twist.linear, got[0].twist.angular
        ch.check(np.allclose([a.x, a.y, a.z], lin[i], atol=1e-7, equal_nan=True)
                 and np.allclose([c.x, c.y, c.z], ang[i], atol=1e-7, equal_nan=True), "twist",
                 lambda: f"sample {i}: {a} {c}, expected {lin[i]} {ang[i]}")
    ch.outcome(np.round(lin, 4).tobytes(), np.round(ang, 4).tobytes())


def many(ch):
    """Every index of a long recording, then once through by playing and subscribing."""
    import _ros

    rbm = fresh()
    w = _ros.reset()
    which = ch.choose("frame", ["moving child of root", "static child of moving, wrt root",
                                "discrete"], free=True)
    tkind = ch.choose("timestamps", ["float", "ns", "float, epoch"], free=True)
    pt = ch.choose("pose and twist", [(False, False), (True, True)], free=True)
    sub = ch.choose("subscribe", [None, True], free=True)
    tree(rbm, tkind, "many")
    s = Sim(ch, rbm, w, which, tkind, "many", pt[0], pt[1], sub, "names")
    ch.state(which, tkind, pt, sub)
    if sub is None:
        for i in list(range(s.n)) + list(range(s.n))[::-97]:
            s.publish(i)
        s.play(s.n + 2, "stop")
    else:
        for x in list(s.ts[::7]) + list(s.ts[::-113]):
            s.incoming((s.sub,), x)
    ch.outcome(which, tkind)


def scenarios(tier):
    q = tier == "quick"
    return [Scenario("every index", every_index), Scenario("many samples", many),
            Scenario("twist options", twist_options),
            Scenario("histories", make(3 if q else 4, not q), 2 if q else 3)]
