"""Playback widget: every sequence of user events against an index model."""
import numpy as np

from mc import ref
from mc.checks.c16 import US
from mc.explore import Scenario
from mc.util import fresh

ASSUMPTIONS = [
    "stand-ins for ipywidgets, IPython and the ROS packages (not installed): integer "
    "sliders clamp to their range, linked widgets follow each other, a changed value "
    "calls the linked function once",
    "recordings of at least two messages, 1 ms or more apart at the chosen speed",
]
BASE = np.datetime64("2020-03-01T12:00:00", "ns")
EVENTS = ["forward", "backward", "tick", "slide to start", "slide to end", "slide to middle"]


class Publisher:
    def __init__(self, timestamps=None):
        self.calls = []
        if timestamps is not None:
            self.timestamps = timestamps

    def publish(self, idx=None):
        self.calls.append(idx)


def widgets_of(ch, w):
    from ipywidgets import widgets as W

    made = [e[1] for e in w.events if e[0] == "widget"]
    shown, todo = [], [o for e in w.events if e[0] == "display" for o in e[1]]
    while todo:
        x = todo.pop()
        shown.append(x)
        todo.extend(getattr(x, "children", ()))

    def one(name, pred):
        f = [x for x in made if pred(x)]
        ch.check(len(f) == 1, "widgets", lambda: f"{len(f)} widgets for {name}")
        ch.check(any(f[0] is x for x in shown), "widgets", f"{name} is not displayed")
        return f[0]

    return (
        one("the position", lambda x: isinstance(x, W.IntSlider)),
        one("play", lambda x: isinstance(x, W.Play)),
        one("forward", lambda x: isinstance(x, W.Button) and "►" in x.description),
        one("backward", lambda x: isinstance(x, W.Button) and "◄" in x.description),
    )


def drive(ch, w, n, step, skip, depth, published, alphabet=EVENTS):
    """Run event sequences; ``published()``: list of indexes published so far."""
    slider, play, fwd, bwd = widgets_of(ch, w)
    shown_error = lambda: [e for e in w.events if e[0] == "shown error"]
    idx = 0
    ch.check(int(slider.value) == 0, "index", lambda: f"starts at {slider.value}")
    ch.check(published() in ([], [0]), "published messages",
             lambda: f"{published()} before the first event")
    seen = len(published())
    by = skip or step
    for k in range(depth):
        ev = ch.choose(f"event {k}", alphabet, free=True)
        old = idx
        if ev == "forward":
            idx = min(idx + by, n - 1)
            fwd.click()
        elif ev == "backward":
            idx = max(idx - by, 0)
            bwd.click()
        elif ev == "tick":
            ch.check(int(play.value) == old, "index",
                     lambda: f"player at {play.value}, slider at {slider.value}")
            idx = idx + step if idx + step <= n - 1 else idx
            play.tick()
        else:
            idx = {"slide to start": 0, "slide to end": n - 1, "slide to middle": n // 2}[ev]
            slider.value = idx
        ch.step()
        ch.state(n, step, skip, k, idx)
        ch.check(not shown_error(), "error", lambda: str(shown_error()))
        ch.check(0 <= slider.value <= n - 1 and 0 <= play.value <= n - 1, "index out of range",
                 lambda: f"{slider.value}, {play.value} of {n}")
        ch.check(int(slider.value) == idx, "index",
                 lambda: f"{ev} at {old} of {n} (step {step}, skip {skip}): {slider.value}, expected {idx}")
        new = published()[seen:]
        seen += len(new)
        ch.check(new == ([idx] if idx != old else []), "published messages",
                 lambda: f"{ev} from {old} to {idx}: published {new}")


def stamps(kind, n, dt):
    """Timestamps with mean difference dt (s), as given to the code."""
    # irregular, exactly representable in ms
    k = np.arange(n)
    ms = np.round(k * dt * 1e3).astype("int64")
    if n > 3:
        ms[1] -= max(int(dt * 1e3) // 4, 0)
    if kind == "float":
        return ms / 1e3 + 1.0
    if kind == "epoch float":
        return ms / 1e3 + 1.6e9
    if kind == "int":
        return (k * max(int(round(dt)), 1)).astype(int)
    unit = {"ns": 10**6, "us": 10**3, "ms": 1}
    if kind == "s":
        return np.datetime64("2020-03-01T12:00:00", "s") + (k * max(int(round(dt)), 1)).astype("timedelta64[s]")
    u = kind.split()[0]
    t = BASE.astype(f"datetime64[{u}]") + (ms * unit[u]).astype(f"timedelta64[{u}]")
    return t


def mean_dt(ts):
    ts = np.asarray(ts)
    if ts.dtype.kind == "M":
        ts = ts.astype("datetime64[ns]").astype("int64") / 1e9
        ts = ts - ts[0]
    return (float(ts[-1]) - float(ts[0])) / (len(ts) - 1)


def shape(kind, ts):
    import pandas as pd
    import xarray as xr

    return {
        "array": lambda: ts, "index": lambda: pd.Index(ts), "list": lambda: list(ts),
        "tuple": lambda: tuple(ts), "series": lambda: pd.Series(ts),
        "dataarray": lambda: xr.DataArray(ts, dims="time"),
    }[kind]()


def sequences(ch, depth, small=False):
    """All event sequences on a recording publisher."""
    import _ros
    from rigid_body_motion.ros.utils import play_publisher

    w = _ros.reset()
    n = ch.choose("messages", [5, 2, 3, 8])
    step = ch.choose("step", [2, 1] if small else [1, 2, 3, 5], free=not small)
    skip = ch.choose("skip", [None, 3] if small else [None, 2, 1, 4, 100], free=not small)
    ts = stamps("ns", n, 0.05)
    pub = Publisher(ts)
    play_publisher(pub, step=step, skip=skip)
    drive(ch, w, n, step, skip, depth, lambda: [int(c) for c in pub.calls])


def timing(ch, ns=(5, 2, 3, 40)):
    """Interval, step, range for all kinds of timestamps."""
    import _ros
    from rigid_body_motion.ros.utils import play_publisher

    w = _ros.reset()
    n = ch.choose("messages", ns, free=True)
    dt = ch.choose("mean interval", [0.05, 0.01, 0.008, 1.0, 0.7, 30.0])
    kind = ch.choose("timestamps", ["ns", "us", "ms", "s", "float", "epoch float", "int"], free=True)
    cont = ch.choose("given as", ["array", "index", "list", "tuple", "series", "dataarray"])
    given = ch.choose("source", ["publisher", "argument", "both"], free=True)
    step = ch.choose("step", [1, 2, 7], free=True)
    speed = ch.choose("speed", [1.0, 0.5, 2.0, 3, 0.1])
    ts = stamps(kind, n, dt)
    ch.state(n, dt, kind, cont, given, step, speed)
    want = mean_dt(ts) / speed * step * 1e3
    ch.assume(want / step >= 1)
    arg = shape(cont, ts)
    if given == "publisher":
        pub, kw = Publisher(arg), {}
    elif given == "argument":
        pub, kw = Publisher(), {"timestamps": arg}
    else:
        # the argument wins
        pub, kw = Publisher(np.arange(3 * n) * 17.0), {"timestamps": arg}
    play_publisher(pub, step=step, speed=speed, **kw)
    ch.step()
    slider, play, _, _ = widgets_of(ch, w)
    ch.check(slider.min == 0 and slider.max == n - 1 and play.min == 0 and play.max == n - 1,
             "range", lambda: f"{slider.min}..{slider.max}, {play.min}..{play.max} for {n} messages")
    ch.check(play.step == step, "play step", lambda: f"{play.step}, expected {step}")
    ch.check(abs(play.interval - want) <= 0.5 + 1e-3 * max(step, 1), "play interval",
             lambda: f"{play.interval} ms, expected {want} ms")
    errs = [e for e in w.events if e[0] == "shown error"]
    ch.check(not errs, "error", lambda: str(errs))
    # to the end by playing
    pos = [0]
    while play.tick():
        ch.step()
        pos.append(int(slider.value))
    ch.check(pos == list(range(0, n, step)), "index", lambda: f"played {pos}")
    calls = [int(c) for c in pub.calls]
    ch.check(calls in (pos, pos[1:]), "published messages", lambda: f"{calls} for {pos}")


def broadcaster(ch, depth):
    """The library's own publishers behind the widget."""
    import _ros

    rbm = fresh()
    w = _ros.reset()
    n = 5
    tk = ch.choose("timestamps", ["ns", "epoch float", "ms"], free=True)
    step = ch.choose("step", [1, 2], free=True)
    skip = ch.choose("skip", [None, 3], free=True)
    pose = ch.flag("pose", free=True)
    ts = stamps(tk, n, 0.1)
    secs = np.asarray(ts, float) if tk == "epoch float" else ts.astype("datetime64[ns]").astype("int64") / 1e9
    t = np.arange(n)[:, None] * np.array([1.0, -2, 0.5]) + 1
    q = ref.axang((1, 2, 3), 0.3 * np.arange(n))
    rbm.register_frame("world")
    rbm.register_frame("body", parent="world", translation=t, rotation=q, timestamps=ts)
    b = rbm.ros.ReferenceFrameTransformBroadcaster("body", publish_pose=pose) if hasattr(
        rbm, "ros") else None
    if b is None:
        from rigid_body_motion.ros import ReferenceFrameTransformBroadcaster

        b = ReferenceFrameTransformBroadcaster("body", publish_pose=pose)
    from rigid_body_motion.ros.utils import play_publisher

    w.published.clear()
    play_publisher(b, step=step, skip=skip)

    def published():
        out = []
        tf = []
        for topic, m in w.published:
            for x in getattr(m, "transforms", [m]):
                if hasattr(x, "transform"):
                    tf.append((x.header.stamp.to_sec(), x.transform.translation.x, x.transform.translation.y,
                               x.transform.rotation.w))
        poses = [m for _, m in w.published if hasattr(m, "pose")]
        if pose:
            ch.check(len(poses) == len(tf), "published messages",
                     lambda: f"{len(poses)} poses, {len(tf)} transforms")
        for s, x, y, rw in tf:
            i = int(np.argmin(np.abs(secs - s)))
            ch.check(abs(secs[i] - s) <= US and abs(x - t[i, 0]) < 1e-9 and abs(y - t[i, 1]) < 1e-9
                     and abs(abs(rw) - abs(q[i, 0])) < 1e-9, "message contents",
                     lambda: f"stamp {s}: {x}, {y}, {rw}")
            out.append(i)
        return out

    drive(ch, w, n, step, skip, depth, published,
          ["forward", "backward", "tick", "slide to middle"])


def scenarios(tier):
    q = tier == "quick"
    return [
        # 4 message counts x steps x skips x all sequences of events
        Scenario("event sequences", lambda ch: sequences(ch, 3 if q else 5), 1),
        Scenario("longer event sequences", lambda ch: sequences(ch, 4 if q else 6, True), 1),
        # timestamp kinds, containers, source, step and speed, played to the end
        Scenario("timing and range", timing, 1 if q else 3),
        Scenario("long recordings", lambda ch: timing(ch, (101, 102, 1100, 5000)), 0),
        # transform broadcaster behind the widget, message contents compared
        Scenario("broadcaster playback", lambda ch: broadcaster(ch, 3 if q else 5), 0),
    ]
