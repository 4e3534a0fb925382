"""Marker messages: geometry, sub-sampled paths, publication on change."""
import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = [
    "stand-ins for the ROS packages (not installed): messages serialise like genpy, a "
    "publisher counts messages in the header of the message it is given (rospy)",
    "evenly: constant stride between the chosen samples, or strides that differ by one",
]


# -- get_marker -------------------------------------------------------------
COLORS = {
    "#ffffffff": (1, 1, 1, 1), "#00000000": (0, 0, 0, 0), "#ff8000cc": (1, 128 / 255, 0, 0.8),
    "0a1B2c3D": (10 / 255, 27 / 255, 44 / 255, 61 / 255), "#FF00FF7f": (1, 0, 1, 127 / 255),
    "#010203fe": (1 / 255, 2 / 255, 3 / 255, 254 / 255),
}
SCALES = {
    "1.0": 1.0, "2": 2, "0.05": 0.05, "tuple": (0.5, 1.5, 2.5), "list": [3, 2, 1],
    "array": np.array([0.1, 0.2, 0.3]), "float64": np.float64(0.7), "float32": np.float32(0.5),
    "int64": np.int64(3), "0-d array": np.array(1.25),
}
POS = [(0.0, 0.0, 0.0), (1.0, -2.0, 3.5), [1, 2, 3], np.array([-0.1, 0.2, 1e6])]
ORI = [(0.0, 0.0, 0.0, 1.0), (0.5, -0.5, 0.5, 0.5), [1, 0, 0, 0], np.array([0.1, 0.2, 0.3, 0.9])]


def f32(x):
    return float(np.float32(x))


def marker(ch):
    from rigid_body_motion.ros.visualization import get_marker

    import _ros

    _ros.reset()
    kw = {}
    typ = ch.choose("type", ["default", None] + list(range(12)), free=True)
    frame = ch.choose("frame", ["default", "map", "world/body 1"])
    scale = ch.choose("scale", ["default"] + list(SCALES), free=True)
    color = ch.choose("color", ["default"] + list(COLORS))
    pos = ch.choose("position", ["default"] + list(range(1, len(POS))))
    ori = ch.choose("orientation", ["default"] + list(range(1, len(ORI))))
    ch.state(typ, frame, scale, color, pos, ori)
    if typ != "default":
        kw["marker_type"] = typ
    if frame != "default":
        kw["frame_id"] = frame
    if scale != "default":
        kw["scale"] = SCALES[scale]
    if color != "default":
        kw["color"] = color
    if pos != "default":
        kw["position"] = POS[pos]
    if ori != "default":
        kw["orientation"] = ORI[ori]
    ch.step()
    m = get_marker(**kw)
    try:
        m = m.copy()  # as sent
    except Exception as e:
        ch.fail("marker cannot be sent", repr(e))
    ch.check(m.type == (4 if typ in ("default", None) else typ), "type", lambda: str(m.type))
    ch.check(m.header.frame_id == kw.get("frame_id", "world"), "frame", lambda: m.header.frame_id)
    s = np.broadcast_to(np.asarray(kw.get("scale", 1.0), float), (3,))
    g = [m.scale.x, m.scale.y, m.scale.z]
    ch.check(np.allclose(g, s, rtol=1e-7, atol=0), "scale", cmp(g, s))
    c = COLORS[kw.get("color", "#ffffffff")]
    g = [m.color.r, m.color.g, m.color.b, m.color.a]
    ch.check(np.allclose(g, c, atol=1e-6), "color", cmp(g, c))
    p = kw.get("position", POS[0])
    g = [m.pose.position.x, m.pose.position.y, m.pose.position.z]
    ch.check(np.array_equal(g, np.asarray(p, float)), "position", cmp(g, p))
    o = kw.get("orientation", ORI[0])
    r = m.pose.orientation
    g = [r.x, r.y, r.z, r.w]
    ch.check(np.array_equal(g, np.asarray(o, float)), "orientation", cmp(g, o))
    ch.check(len(m.points) == 0 and m.action == 0, "points", lambda: str(m))
    # markers do not share state
    m1, m2 = get_marker(**kw), get_marker(**kw)
    ch.step()
    m1.points.append(1)
    m1.pose.position.x = 77.0
    m1.scale.y = 55.0
    m1.color.r = 0.25
    ch.check(len(m2.points) == 0 and m2.pose.position.x != 77.0 and m2.scale.y != 55.0 and
             m2.color.r != 0.25, "markers share state", lambda: str(m2))


# -- paths ------------------------------------------------------------------
def tree(ch, rbm, n, where):
    """Registers body below world; returns base argument and translations."""
    t = np.stack([np.arange(n) * 1.0, np.cos(np.arange(n)), -0.5 * np.arange(n) ** 2], 1)
    rot = ref.axang((0, 0, 1), 0.2 * np.arange(n))
    ts = np.arange(n) * 0.1
    ts0 = np.array([0.0, 1.0, -2.0])
    q0 = ref.axang((1, 2, 2), np.asarray(0.7))
    rbm.register_frame("world")
    rbm.register_frame("base", parent="world", translation=ts0, rotation=q0)
    rbm.register_frame("body", parent="base", translation=t, rotation=rot, timestamps=ts)
    rbm.register_frame("side", parent="world", translation=2 * ts0)
    if where == "parent":
        return None, "base", t
    if where == "parent by name":
        return "base", "base", t
    w = ref.rot(np.broadcast_to(q0, (n, 4)), t) + ts0
    if where == "grandparent":
        return "world", "world", w
    return "side", "side", w - 2 * ts0


def check_path(ch, pts, t, m):
    n = len(t)
    pts = np.array([[p.x, p.y, p.z] for p in pts]).reshape(-1, 3)
    k = len(pts)
    ch.check(1 <= k <= max(m, 1), "number of points", lambda: f"{k} of {n}, at most {m}")
    ch.check(k <= n, "number of points", lambda: f"{k} of {n}")
    idx = []
    for p in pts:
        d = np.abs(t - p).max(1)
        i = int(np.argmin(d))
        ch.check(d[i] < 1e-9 * max(1, np.abs(t).max()), "points", cmp(pts, t))
        idx.append(i)
    ch.check(idx[0] == 0, "first sample", lambda: str(idx[:10]))
    ds = np.diff(idx)
    ch.check(np.all(ds > 0), "order", lambda: str(idx[:50]))
    if k > 1:
        ch.check(ds.max() - ds.min() <= 1, "uneven", lambda: str(idx[:50]))
    if n <= m:
        ch.check(idx == list(range(n)), "samples left out", lambda: f"{idx} of {n}, at most {m}")
    else:
        ch.check(2 * k >= min(n, m), "too few points", lambda: f"{k} of {n}, at most {m}")
    if k > 1 or n > 1:
        # the rest after the last point is not longer than a stride
        last = n - 1 - idx[-1]
        ch.check(k == 1 or last <= ds.max(), "path cut off", lambda: f"{idx[-5:]} of {n}")
        ch.check(k > 1 or m < 2, "path cut off", lambda: f"{idx} of {n}, at most {m}")


def path(ch, big):
    import _ros

    rbm = fresh()
    w = _ros.reset()
    from rigid_body_motion.ros import ReferenceFrameMarkerPublisher

    if big:
        n, m = ch.choose("samples, max_points", [
            (999, None), (1000, None), (1001, None), (1999, None), (2000, None), (2001, None),
            (3500, None), (997, 100), (1000, 100), (1001, 999), (1000, 1), (1500, 1499), (64, 63)],
            free=True)
    else:
        n = ch.choose("samples", list(range(1, 13)), free=True)
        m = ch.choose("max_points", list(range(1, 14)) + [None], free=True)
    where = ch.choose("base", ["parent", "parent by name", "grandparent", "sibling"], free=not big)
    frame = ch.choose("frame given as", ["name", "object"])
    topic = ch.choose("topic", [None, "/some/topic"])
    scale = ch.choose("scale", [None, 0.02, 3])
    color = ch.choose("color", [None, "#ff8000cc"])
    ch.state(n, m, where, frame, topic, scale, color)
    base, base_name, t = tree(ch, rbm, n, where)
    kw = {}
    if base is not None:
        kw["base"] = base
    if m is not None:
        kw["max_points"] = m
    if topic:
        kw["topic"] = topic
    if scale is not None:
        kw["scale"] = scale
    if color:
        kw["color"] = color
    f = "body"
    if frame == "object":
        from rigid_body_motion import registry

        f = registry["body"]
        if base:
            kw["base"] = registry[base]
    ch.step()
    p = ReferenceFrameMarkerPublisher(f, **kw)
    sent = [x for x in w.published]
    p.publish()
    ch.step()
    sent = w.published
    ch.check(len(sent) == 1, "published markers", lambda: f"{len(sent)}")
    tp, mk = sent[0]
    ch.check(tp == (topic or "/body/path"), "topic", lambda: tp)
    pub = [x for x in w.publishers if x.name == tp]
    ch.check(len(pub) == 1 and pub[0].latch, "latched publisher", lambda: str(pub))
    ch.check(mk.header.frame_id == base_name, "frame", lambda: mk.header.frame_id)
    ch.check(mk.type == 4 and mk.action == 0, "type", lambda: str(mk.type))
    ch.check(abs(mk.scale.x - (0.1 if scale is None else scale)) < 1e-9, "scale",
             lambda: str(mk.scale))
    c = COLORS[color or "#ffffffff"]
    g = [mk.color.r, mk.color.g, mk.color.b, mk.color.a]
    ch.check(np.allclose(g, c, atol=1e-6), "color", cmp(g, c))
    o, q = mk.pose.position, mk.pose.orientation
    ch.check((o.x, o.y, o.z, q.x, q.y, q.z, q.w) == (0, 0, 0, 0, 0, 0, 1), "pose",
             lambda: str(mk.pose))
    check_path(ch, mk.points, t, 1000 if m is None else m)
    p.publish()
    ch.step()
    ch.check(len(sent) == 1, "unchanged marker published again", lambda: f"{len(sent)}")


def static(ch):
    """Static frames: a single point."""
    import _ros

    rbm = fresh()
    w = _ros.reset()
    from rigid_body_motion.ros import ReferenceFrameMarkerPublisher

    m = ch.choose("max_points", [1000, 1, 2, 5], free=True)
    where = ch.choose("base", [None, "world", "other"], free=True)
    rot = ch.flag("rotated", free=True)
    q0 = ref.axang((1, 2, 2), np.asarray(0.7)) if rot else np.array([1.0, 0, 0, 0])
    rbm.register_frame("world")
    rbm.register_frame("base", parent="world", translation=(0.0, 1, -2), rotation=q0)
    rbm.register_frame("body", parent="base", translation=(3.0, 4, 5))
    rbm.register_frame("other", parent="world", translation=(7.0, 0, 0))
    v = ref.rot(q0[None], np.array([[3.0, 4, 5]]))[0] + np.array([0.0, 1, -2])
    want = {None: np.array([3.0, 4, 5]), "world": v, "other": v - np.array([7.0, 0, 0])}[where]
    p = ReferenceFrameMarkerPublisher("body", max_points=m, **({"base": where} if where else {}))
    p.publish()
    ch.step()
    ch.state(m, where, rot)
    mk = w.published[0][1]
    g = np.array([[x.x, x.y, x.z] for x in mk.points])
    ch.check(g.shape == (1, 3) and np.allclose(g[0], want, atol=1e-9), "points", cmp(g, want))
    ch.check(mk.header.frame_id == (where or "base"), "frame", lambda: mk.header.frame_id)


def widget(ch):
    """The ros3d widget of a path marker."""
    import _ros

    rbm = fresh()
    w = _ros.reset()
    from jupyros import ros3d
    from rigid_body_motion.ros import ReferenceFrameMarkerPublisher

    where = ch.choose("base", ["parent", "parent by name", "grandparent", "sibling"], free=True)
    topic = ch.choose("topic", [None, "/some/topic"], free=True)
    conn = ch.choose("connection", ["created", "given"], free=True)
    client = ch.choose("tf client", ["created", "given"], free=True)
    again = ch.flag("asked twice", free=True)
    published = ch.flag("published before", free=True)
    base, base_name, _ = tree(ch, rbm, 4, where)
    kw = {"base": base} if base is not None else {}
    p = ReferenceFrameMarkerPublisher("body", **kw, **({"topic": topic} if topic else {}))
    if published:
        p.publish()
    before = (p.marker.copy().raw(), len(w.published))
    args = {}
    if conn == "given":
        args["ros"] = ros3d.ROSConnection(url="ws://localhost:9090")
    if client == "given":
        args["tf_client"] = ros3d.TFClient(ros=args.get("ros") or ros3d.ROSConnection(), fixed_frame="map")
    ch.state(where, topic, conn, client, again, published)
    for _ in range(1 + again):
        m = p.get_ros3d_widget(**args)
        ch.step()
        ch.check(isinstance(m, ros3d.Marker), "widget", lambda: str(m))
        ch.check(m.kw.get("topic") == (topic or "/body/path"), "widget topic", lambda: str(m.kw))
        ros, tf = m.kw.get("ros"), m.kw.get("tf_client")
        ch.check(isinstance(ros, ros3d.ROSConnection) and isinstance(tf, ros3d.TFClient),
                 "widget connection", lambda: str(m.kw))
        if conn == "given":
            ch.check(ros is args["ros"], "widget connection", lambda: str(m.kw))
        if client == "given":
            ch.check(tf is args["tf_client"] and tf.kw["fixed_frame"] == "map", "widget tf client",
                     lambda: str(m.kw))
        else:
            ch.check(tf.kw.get("fixed_frame") == base_name and tf.kw.get("ros") is ros,
                     "widget tf client", lambda: str(tf.kw))
        ch.check(m.kw.get("path", "") in ("", "/"), "widget path", lambda: str(m.kw))
    ch.check((p.marker.copy().raw(), len(w.published)) == before, "marker changed or published by the widget")
    ch.outcome(where, topic)


# -- publication on change ----------------------------------------------------
def ops(kind):
    import _ros

    def set_(path, v):
        def fn(p):
            o = p.marker
            for a in path[:-1]:
                o = getattr(o, a)
            setattr(o, path[-1], v)
        return fn

    def append(p):
        p.marker.points.append(_ros.Point(9.0, 8.0, 7.0))

    def drop(p):
        if p.marker.points:
            p.marker.points.pop()

    def move_point(p):
        if p.marker.points:
            p.marker.points[0].y += 0.5

    def replace_equal(p):
        p.marker = p.marker.copy()

    def rebuild(p):
        p.marker.points = [x.copy() for x in p.marker.points]

    o = {
        "publish": None, "append a point": append, "drop a point": drop,
        "colour": set_(("color", "g"), 0.5), "colour back": set_(("color", "g"), 1.0),
        "move a point": move_point, "replace by equal": replace_equal, "failing publish": None,
        "frame": set_(("header", "frame_id"), "map"), "rebuild points": rebuild,
        "pose": set_(("pose", "position", "x"), 3.0), "text": set_(("text",), "hello"),
        "scale": set_(("scale", "x"), 0.25), "stamp": lambda p: setattr(
            p.marker.header, "stamp", _ros.Time(p.marker.header.stamp.secs + 1, 0)),
    }
    return o if kind == "all" else {k: o[k] for k in list(o)[:8]}


def histories(ch, depth, kind):
    import _ros

    rbm = fresh()
    w = _ros.reset()
    from rigid_body_motion.ros import ReferenceFrameMarkerPublisher
    from rigid_body_motion.ros.visualization import BaseMarkerPublisher, get_marker

    cls = ch.choose("publisher", ["path", "plain"], free=True)
    if cls == "path":
        rbm.register_frame("world")
        rbm.register_frame("body", parent="world", translation=np.arange(6.0).reshape(2, 3),
                           timestamps=np.array([0.0, 1.0]))
        p = ReferenceFrameMarkerPublisher("body")
    else:
        p = BaseMarkerPublisher(get_marker(), "/marker")
    alphabet = ops(kind)
    last = None
    fail = []

    def hook(topic, msg):
        if fail:
            raise _ros.ROSException("publish() to a closed topic")

    w.on_publish = hook
    names = []

    def content(m):
        m = m.copy()
        m.header.seq = 0
        return m.raw()

    for i in range(depth):
        op = ch.choose(f"operation {i}", list(alphabet), free=True)
        names.append(op)
        before = len(w.published)
        if op in ("publish", "failing publish"):
            now = content(p.marker)
            if op == "failing publish":
                fail.append(1)
            try:
                p.publish()
            except _ros.ROSException:
                ch.check(fail, "error", "publish raised")
            finally:
                was_failing = bool(fail)
                fail.clear()
            ch.step()
            new = w.published[before:]
            changed = now != last
            if was_failing:
                # nothing was sent
                ch.check(not new, "published markers", "sent by a failing publisher")
            else:
                ch.check(len(new) == (1 if changed else 0),
                         "changed marker not published" if changed else "unchanged marker published again",
                         lambda: f"{names}: {len(new)} messages")
                if changed:
                    ch.check(content(new[0][1]) == now, "published marker differs", str(names))
                    last = now
        else:
            alphabet[op](p)
            ch.step()
            ch.check(len(w.published) == before, "published markers", "by modifying the marker")
        ch.state(cls, i, content(p.marker), last)
    ch.outcome(len(w.published))


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("get_marker", marker, 1 if q else 3),
        Scenario("paths", lambda ch: path(ch, False), 1 if q else 3),
        Scenario("long paths", lambda ch: path(ch, True), 1 if q else 2),
        Scenario("static frames", static, 0),
        Scenario("ros3d widget", widget),
        Scenario("publish histories", lambda ch: histories(ch, 4 if q else 6, "few"), 0),
        Scenario("publish histories, all operations", lambda ch: histories(ch, 3 if q else 5, "all"), 0),
    ]
