"""Spinning publishers under every interleaving of caller and publisher thread."""
import importlib
import pkgutil
import sys
import threading

import numpy as np

from mc import ref, sched
from mc.checks.c16 import US, pose
from mc.explore import Scenario
from mc.util import fresh

ASSUMPTIONS = [
    "threads switch between lines of the publisher modules and at every ROS call "
    "(bytecode granularity in the thorough tier), sequentially consistent",
    "a publisher is spun again only after its previous thread has ended, and stop() "
    "is called after spin() has returned (or, when blocking, after its first wait)",
    "stand-ins for the ROS packages (no ROS installation in this environment)",
    "a thread that makes 4 more waits or 6 more messages after being told to stop "
    "counts as not stopping",
]

MAX_WAITS = 4
REAL_THREAD = threading.Thread
MAX_POINTS = 6000


# modules of the library in which the publishers certainly do not run
OTHER = {"accessors", "coordinate_systems", "core", "estimators", "io", "plot", "plotting",
         "reference_frames", "testing", "utils", "ros.check_install", "ros.io", "ros.msg", "ros"}


def modules():
    """The publisher modules and any module they may have been split into."""
    import rigid_body_motion as rbm

    for m in pkgutil.walk_packages(rbm.__path__, "rigid_body_motion."):
        if m.name.split(".", 1)[1] not in OTHER:
            importlib.import_module(m.name)
    return [m for n, m in sorted(sys.modules.items()) if n.startswith("rigid_body_motion.")
            and m is not None and n.split(".", 1)[1] not in OTHER]


class Run:
    """One execution: scheduler, simulated ROS and message log per thread."""

    def __init__(self, ch, opcodes):
        import _ros

        self.ch, self.w = ch, _ros.reset()
        self.s = sched.Sched(ch, modules(), opcodes)
        ch.defer(self.s.restore)
        self.log = []  # (thread name, topic, message)
        self.waits = {}
        self.told = False
        self.after = {}
        w = self.w
        w.on_publish = self.on_publish
        w.on_sleep = self.on_sleep
        w.on_is_shutdown = self.on_is_shutdown
        w.on_spin = self.on_spin
        self.idle = 0
        self.active = True  # not told to stop since the last spin()

    def me(self):
        return self.s.current.name

    def on_publish(self, topic, msg):
        self.s.point("publish")
        self.log.append((self.me(), topic, msg.copy()))
        self.idle = 0
        if self.told and self.me() not in ("main", "ros", "helper"):
            self.count("messages", 6)

    def on_sleep(self, d):
        self.waits.setdefault(self.me(), []).append((len(self.of(self.me())), d))
        self.idle += 1
        if self.told:
            self.count("waits", MAX_WAITS)
        if self.s.n_points > MAX_POINTS:
            self.ch.fail("no progress", f"{self.idle} waits without a message")
        self.s.point("sleep", yielding=True)

    def on_is_shutdown(self):
        self.s.point("is_shutdown")
        if self.told:
            self.count("loops", 3 * MAX_WAITS)
        return self.w.shutdown

    def on_spin(self):
        # like rospy.spin: ends with the node only
        while not self.w.shutdown:
            if self.told:
                self.count("waits", MAX_WAITS)
            self.s.point("spin", yielding=True)

    def count(self, what, n):
        k = (self.me(), what)
        self.after[k] = self.after.get(k, 0) + 1
        self.ch.check(self.after[k] <= n, "publisher does not stop",
                      lambda: f"{self.me()}: {n} {what} after it was told to stop")

    def of(self, name):
        return [x[1:] for x in self.log if x[0] == name]

    def tell(self, b, how):
        self.active = False
        if how == "stop":
            b.stop()
        else:
            self.s.point("shutdown")
            self.w.shutdown = True
        self.told = True

    def join(self, thread):
        thread.join()
        self.told = False
        self.after = {}
        self.s.point("joined")
        self.w.shutdown = False

    def wait_for(self, pred, what):
        start = self.s.n_points

        def p():
            if pred():
                return True
            pubs = [t for t in self.s.threads if t.name not in ("main",)]
            if all(t.done for t in pubs):
                self.ch.fail("publisher ended without being told to", what)
            if self.s.n_points > start + 1500:
                self.ch.fail("publisher does not keep publishing", what)
            return False

        self.s.block(p, label=what)


def check_thread(ch, t):
    ch.check(isinstance(t, REAL_THREAD), "spin() returns the running thread")


# -- transform broadcaster ---------------------------------------------------
N = 3
TS = np.array([0.5, 1.25, 3.0])


def broadcaster(rbm, **kw):
    from rigid_body_motion.ros import ReferenceFrameTransformBroadcaster as B

    rbm.register_frame("world")
    t, q = pose(1, N)
    rbm.register_frame("mover", "world", t, q, TS.copy())
    return B("mover", **kw), t, q


def sample_of(group, t, q, pose_):
    """Index of the sample all messages of one publication show, or None."""
    topics = [g[0] for g in group]
    if sorted(topics) != (["/mover/pose", "/tf"] if pose_ else ["/tf"]):
        return None
    idx = set()
    for topic, m in group:
        if topic == "/tf":
            if len(m.transforms) != 1:
                return None
            m = m.transforms[0]
            v, r = m.transform.translation, m.transform.rotation
        else:
            v, r = m.pose.position, m.pose.orientation
        hit = [i for i in range(N) if abs(m.header.stamp.to_sec() - TS[i]) < US
               and np.allclose([v.x, v.y, v.z], t[i])
               and ref.same_quat(np.array([r.w, r.x, r.y, r.z]), q[i], 1e-9)]
        if not hit:
            return None
        idx |= set(hit)
    return idx.pop() if len(idx) == 1 else None


def groups(ch, msgs, per, t, q, pose_, who, partial=False):
    ch.check(partial or len(msgs) % per == 0, "incomplete publication", lambda: f"{who}: {msgs}")
    out = []
    for k in range(0, len(msgs) - per + 1, per):
        i = sample_of(msgs[k:k + per], t, q, pose_)
        ch.check(i is not None, "torn publication", lambda: f"{who}: {msgs[k:k + per]}")
        out.append(i)
    return out


MIDDLE = [(), ("wait 1",), ("publish 0",), ("publish",), ("wait 2",), ("wait 4",),
          ("publish", "wait 1"), ("wait 1", "publish 0"), ("wait 2", "publish")]


def make_playback(opcodes, middles, pose_opts, mixed=True):
    def playback(ch):
        rbm = fresh()
        r = Run(ch, opcodes)
        block = ch.flag("blocking", free=True)
        pose_ = ch.choose("publish pose", pose_opts, free=True)
        middle = ch.choose("operations", middles, free=True)
        how = ch.choose("ended by", ["stop", "shutdown"], free=True)
        again = ch.flag("spin again", free=True)
        ch.assume(mixed or not again or (middle == () and how == "stop"))
        ch.state(block, pose_, middle, how, again)
        b, t, q = broadcaster(rbm, publish_pose=pose_)
        per = 2 if pose_ else 1
        mine = {"main": [], "helper": []}
        spins = []  # thread name per spin

        def ops(me, worker, todo):
            base = len(r.of(worker()))
            for op in todo:
                if op.startswith("wait"):
                    k = int(op.split()[1])
                    r.wait_for(lambda: len(r.of(worker())) >= base + k * per, op)
                else:
                    i = None if op == "publish" else int(op.split()[1])
                    n = len(r.of(me))
                    b.publish() if i is None else b.publish(i)
                    got = groups(ch, r.of(me)[n:], per, t, q, pose_, me)
                    ch.check(len(got) == 1 and i in (None, got[0]), "publish from the caller",
                             lambda: f"{op}: {got}")

        def one(todo):
            if not block:
                th = b.spin()
                check_thread(ch, th)
                name = th._coop.name if hasattr(th, "_coop") else "?"
                spins.append(name)
                ops("main", lambda: name, todo)
                r.tell(b, how)
                r.join(th)
            else:
                n0 = len(r.waits.get("main", ()))

                def helper():
                    r.s.current.name = "helper"
                    r.wait_for(lambda: len(r.waits.get("main", ())) > n0, "spinning")
                    ops("helper", lambda: "main", todo)
                    r.tell(b, how)

                h = r.s.thread(helper, "helper")
                b.spin(block=True)
                ch.check(r.told or b.stopped or r.w.shutdown, "blocking spin() returns early")
                spins.append("main")
                r.join(h)

        def script():
            one(middle)
            if again:
                one(("wait 2",))

        left = r.s.run(script)
        ch.check(not left, "thread left behind", lambda: f"{[x.name for x in left]}")
        seq = []
        for name in dict.fromkeys(spins):
            got = groups(ch, r.of(name), per, t, q, pose_, name)
            if seq and got:
                # continued at the last or the next sample
                ch.check(got[0] in (seq[-1], (seq[-1] + 1) % N), "playback order after restart",
                         lambda: f"{seq} {got}")
            elif got:
                ch.check(got[0] == 0, "first sample", f"{got}")
            for x, y in zip(got, got[1:]):
                ch.check(y == (x + 1) % N or (block and again and y == x), "playback order",
                         lambda: f"{name}: {got}")
            seq += got
        ch.outcome(tuple(seq), block, how)

    return playback


def make_subscription(opcodes, mixed=True):
    def subscription(ch):
        rbm = fresh()
        r = Run(ch, opcodes)
        block = ch.flag("blocking", free=True)
        times = ch.choose("incoming", [(1.3,), (), (0.0, 2.9)], free=True)
        how = ch.choose("ended by", ["stop", "shutdown"], free=True)
        again = ch.flag("spin again", free=True)
        ch.assume(not again or len(times) < 2)
        ch.assume(mixed or not again or how == "stop")
        ch.state(block, times, how, again)
        b, t, q = broadcaster(rbm, subscribe=True)
        import _ros

        sub = r.w.subscribers[0]

        def deliver():
            r.s.current.name = "ros"
            for x in times:
                m = _ros.TransformStamped()
                m.child_frame_id, m.header.frame_id = "world", "map"
                m.header.stamp = _ros.Time.from_sec(x)
                told = not r.active
                n = len(r.of("ros"))
                sub.callback(_ros.tfMessage([m]))
                got = groups(ch, r.of("ros")[n:], 1, t, q, False, "callback")
                want = int(np.argmin(abs(TS - x)))
                ch.check(got == [want] or (got == [] and (
                    told or not r.active)),
                    "publication of an incoming message", lambda: f"{x}: {got}, expected {want}")

        def one():
            d = r.s.thread(deliver, "ros")
            if not block:
                th = b.spin()
                r.active = True
                check_thread(ch, th)
                r.tell(b, how)
                r.join(th)
                d.join()
            else:
                def helper():
                    r.s.current.name = "helper"
                    r.s.block(lambda: r.waits.get("main") or r.s.where.get("main") in (
                        "spin", "wait"), label="spinning")
                    r.active = True
                    r.tell(b, how)

                h = r.s.thread(helper, "helper")
                b.spin(block=True)
                ch.check(r.told or b.stopped or r.w.shutdown, "blocking spin() returns early")
                r.join(h)
                d.join()

        def script():
            one()
            if again:
                r.waits.clear()
                one()

        left = r.s.run(script)
        ch.check(not left, "thread left behind", lambda: f"{[x.name for x in left]}")
        ch.outcome(len(r.log), block, how)

    return subscription


def make_callbacks(opcodes, mixed=True):
    """Messages of several nodes, also while the broadcaster is being constructed."""
    def callbacks(ch):
        import _ros

        rbm = fresh()
        r = Run(ch, opcodes)
        times = ch.choose("incoming", [[(1.3,), (2.9,)], [(0.0, 1.3), (2.9,)],
                                       [(2.9,), (2.9,)]], free=True)
        who = ch.choose("subscribed frame", [True, "other"], free=True)
        pose_ = ch.flag("publish pose", free=True)
        caller = ch.choose("caller", [(), ("publish",), ("publish 0",)], free=True)
        ch.assume(mixed or (len(times[0]) > 1 or times[0] == times[1]) + (who is not True)
                  + pose_ + (caller != ()) <= 1)
        ch.state(tuple(map(tuple, times)), who, pose_, caller)
        out = []

        def script():
            ds = []
            for k, xs in enumerate(times):
                def deliver(k=k, xs=xs):
                    name = r.s.current.name = f"ros {k}"
                    r.s.block(lambda: r.w.subscribers, label="subscribed")
                    for x in xs:
                        m = _ros.TransformStamped()
                        m.child_frame_id = "world" if who is True else who
                        m.header.frame_id = "map"
                        m.header.stamp = _ros.Time.from_sec(x)
                        n = len(r.of(name))
                        r.w.subscribers[0].callback(_ros.tfMessage([m]))
                        out.append((x, name, r.of(name)[n:]))

                ds.append(r.s.thread(deliver, f"ros {k}"))
            b, t, q = broadcaster(rbm, subscribe=who, publish_pose=pose_)
            per = 2 if pose_ else 1
            for op in caller:
                i = None if op == "publish" else int(op.split()[1])
                n = len(r.of("main"))
                b.publish() if i is None else b.publish(i)
                got = groups(ch, r.of("main")[n:], per, t, q, pose_, "main")
                ch.check(got == [i or 0], "publish from the caller", lambda: f"{op}: {got}")
            for d in ds:
                d.join()
            ch.check(len(out) == sum(map(len, times)), "every message is handled", lambda: f"{out}")
            for x, name, msgs in out:
                got = groups(ch, msgs, per, t, q, pose_, name)
                want = int(np.argmin(abs(TS - x)))
                ch.check(got == [want], "publication of an incoming message",
                         lambda: f"{x}: {got}, expected {want}")

        left = r.s.run(script)
        ch.check(not left, "thread left behind", lambda: f"{[x.name for x in left]}")
        ch.outcome(len(r.log), tuple(x[0] for x in out))

    return callbacks


# -- marker publisher ---------------------------------------------------------
MARKER_OPS = [(), ("modify",), ("wait",), ("publish",), ("modify", "wait"),
              ("modify", "publish"), ("wait", "modify", "wait"), ("modify", "modify", "wait")]


def make_marker(opcodes, scripts, mixed=True):
    def marker(ch):
        rbm = fresh()
        r = Run(ch, opcodes)
        block = ch.flag("blocking", free=True)
        ops_ = ch.choose("operations", scripts, free=True)
        how = ch.choose("ended by", ["stop", "shutdown"], free=True)
        again = ch.flag("spin again", free=True)
        ch.assume(mixed or not again or (ops_ == () and how == "stop"))
        interval = 0.25
        ch.state(block, ops_, how, again)
        import _ros
        from rigid_body_motion.ros import ReferenceFrameMarkerPublisher as P

        rbm.register_frame("world")
        t, q = pose(1, N)
        rbm.register_frame("mover", "world", t, q, TS.copy())
        b = P("mover", publish_interval=interval)
        versions = [len(b.marker.points)]
        own = "publish" in ops_

        def shown():
            return len(r.log) > 0 and len(r.log[-1][2].points) == versions[-1]

        def ops(todo):
            for op in todo:
                if op == "wait":
                    r.wait_for(shown, "the current marker to be published")
                elif op == "modify":
                    r.s.point("modify")
                    versions.append(versions[-1] + 1)
                    b.marker.points = list(b.marker.points) + [_ros.Point(1.0, 2.0, 3.0)]
                else:
                    b.publish()

        def one(todo):
            if not block:
                th = b.spin()
                check_thread(ch, th)
                ops(todo)
                r.tell(b, how)
                r.join(th)
            else:
                n0 = len(r.waits.get("main", ()))

                def helper():
                    r.s.current.name = "helper"
                    r.wait_for(lambda: len(r.waits.get("main", ())) > n0, "spinning")
                    ops(todo)
                    r.tell(b, how)

                h = r.s.thread(helper, "helper")
                b.spin(block=True)
                ch.check(r.told or b.stopped or r.w.shutdown, "blocking spin() returns early")
                r.join(h)

        def script():
            one(ops_)
            if again:
                one(("modify", "wait"))

        left = r.s.run(script)
        ch.check(not left, "thread left behind", lambda: f"{[x.name for x in left]}")
        got = [len(m.points) for _, _, m in r.log]
        ch.check(all(g in versions for g in got), "torn marker", f"{got} {versions}")
        ch.check(got == sorted(got), "markers reordered", f"{got}")
        if ops_ and (again or ops_[-1] != "modify"):
            ch.check(got and got[-1] == versions[-1], "marker lost", f"{got} {versions}")
        if not own:
            # a modification that races with publishing may be sent twice
            ch.check(len(got) <= len(set(got)) + len(versions) - 1,
                     "unchanged marker published again", f"{got}")
        for name, ws in r.waits.items():
            ch.check(all(abs(d - interval) < 1e-9 for _, d in ws), "publish interval", f"{ws}")
        ch.outcome(tuple(got), block, how)

    return marker


def scenarios(tier):
    if tier == "quick":
        return [Scenario("playback", make_playback(False, MIDDLE[:3], [False], False), 2),
                Scenario("playback with pose", make_playback(False, MIDDLE, [True]), 1),
                Scenario("subscription", make_subscription(False), 1),
                Scenario("concurrent messages", make_callbacks(False, False), 1),
                Scenario("marker", make_marker(False, MARKER_OPS[:5], False), 2),
                Scenario("marker, all scripts", make_marker(False, MARKER_OPS), 1)]
    return [Scenario("playback, two preemptions", make_playback(False, MIDDLE, [False]), 2),
            Scenario("subscription", make_subscription(False), 2),
            Scenario("concurrent messages", make_callbacks(False, False), 2),
            Scenario("concurrent messages, bytecodes", make_callbacks(True), 1),
            Scenario("marker, two preemptions", make_marker(False, MARKER_OPS), 2),
            Scenario("playback", make_playback(False, MIDDLE[:1], [False], False), 3),
            Scenario("marker", make_marker(False, MARKER_OPS[:5], False), 3),
            Scenario("playback, bytecodes", make_playback(True, MIDDLE[:4], [False]), 1),
            Scenario("subscription, bytecodes", make_subscription(True), 1),
            Scenario("marker, bytecodes", make_marker(True, MARKER_OPS), 1)]
