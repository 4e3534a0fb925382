"""Recording stand-ins for the ROS client packages (no ROS installation here).

Message classes follow genpy (fields, constructors, serialisation order), times
follow genpy.rostime, the transform buffer follows tf2::BufferCore/TimeCache.
Everything with an effect goes through the module-level ``W``, which a check
replaces to record calls, inject faults and control time.
"""
import struct
import time as _time


class World:
    """State of the simulated ROS system for one execution."""

    def __init__(self):
        self.published = []  # (topic or kind, deep copy of message)
        self.publishers = []
        self.subscribers = []
        self.buffers = []
        self.sleeps = []
        self.clock = 1.6e9
        self.shutdown = False
        self.events = []
        self.bags = []
        # hooks, overridden by checks
        self.on_publish = None
        self.on_sleep = None
        self.on_is_shutdown = None
        self.on_spin = None
        self.master_pid = lambda: 4711
        self.master_start = lambda: None
        self.on_init_node = None
        self.launcher = None

    def now(self):
        self.clock += 1e-3
        return self.clock

    def record(self, topic, msg):
        if self.on_publish is not None:
            self.on_publish(topic, msg)
        self.published.append((topic, msg.copy()))


W = World()


def reset():
    global W
    W = World()
    return W


def world():
    return W


# -- times -----------------------------------------------------------------
def _canon(secs, nsecs):
    secs = int(secs)
    nsecs = int(nsecs)
    secs += nsecs // 1000000000
    nsecs %= 1000000000
    return secs, nsecs


class TVal:
    def __init__(self, secs=0, nsecs=0):
        if not isinstance(secs, int):
            if nsecs != 0:
                raise ValueError(
                    "if secs is a float, nsecs cannot be set to a non-zero value")
            f = secs
            secs = int(f)
            nsecs = int((f - secs) * 1000000000)
        self.secs, self.nsecs = _canon(secs, nsecs)

    @classmethod
    def from_sec(cls, float_secs):
        secs = int(float_secs)
        nsecs = int((float_secs - secs) * 1000000000)
        return cls(secs, nsecs)

    def to_sec(self):
        return float(self.secs) + float(self.nsecs) / 1e9

    def to_nsec(self):
        return self.secs * int(1e9) + self.nsecs

    def is_zero(self):
        return self.secs == 0 and self.nsecs == 0

    def __bool__(self):
        return not self.is_zero()

    def __eq__(self, o):
        return isinstance(o, TVal) and self.to_nsec() == o.to_nsec()

    def __lt__(self, o):
        return self.to_nsec() < o.to_nsec()

    def __le__(self, o):
        return self.to_nsec() <= o.to_nsec()

    def __hash__(self):
        return hash(self.to_nsec())

    def __repr__(self):
        return f"{type(self).__name__}[{self.to_nsec()}]"


class Time(TVal):
    def __init__(self, secs=0, nsecs=0):
        super().__init__(secs, nsecs)
        if self.secs < 0:
            raise TypeError("time values must be positive")

    @staticmethod
    def now():
        return Time.from_sec(W.now())

    @staticmethod
    def from_seconds(s):
        return Time.from_sec(s)


class Duration(TVal):
    pass


# -- messages --------------------------------------------------------------
def _pack(fmt, v):
    return struct.pack("<" + fmt, v)


def _ser(typ, v, out):
    if typ == "string":
        if not isinstance(v, (str, bytes)):
            raise struct.error(f"expected string, got {type(v)}")
        b = v.encode() if isinstance(v, str) else v
        out.append(_pack("I", len(b)) + b)
    elif typ == "time":
        out.append(struct.pack("<2I", v.secs, v.nsecs))
    elif typ == "duration":
        out.append(struct.pack("<2i", v.secs, v.nsecs))
    elif typ.endswith("[]"):
        out.append(_pack("I", len(v)))
        for x in v:
            _ser(typ[:-2], x, out)
    elif "[" in typ:
        base, n = typ[:-1].split("[")
        if len(v) != int(n):
            raise struct.error(f"expected {n} values")
        for x in v:
            _ser(base, x, out)
    elif typ in _FMT:
        out.append(_pack(_FMT[typ], v))
    else:
        if not isinstance(v, Message) or v._type.split("/")[1] != typ:
            raise TypeError(f"expected {typ}, got {type(v).__name__}")
        v._ser(out)


_FMT = {"float64": "d", "float32": "f", "int32": "i", "uint32": "I", "uint8": "B",
        "int8": "b", "bool": "?"}
_DEFAULT = {"string": str, "time": Time, "duration": Duration, "float64": float,
            "float32": float, "int32": int, "uint32": int, "uint8": int, "int8": int,
            "bool": bool}
TYPES = {}


class Message:
    _type = ""
    _fields = ()
    _has_header = False

    def __init__(self, *args, **kw):
        if args and kw:
            raise TypeError("only args or only kwds")
        if args:
            if len(args) != len(self._fields):
                raise TypeError(
                    f"Invalid number of arguments, args should be "
                    f"{[f for f, _ in self._fields]} args are {args}")
            for (f, _), v in zip(self._fields, args):
                object.__setattr__(self, f, v)
            return
        for f, t in self._fields:
            if f in kw:
                v = kw.pop(f)
            elif t.endswith("[]"):
                v = []
            elif "[" in t:
                v = [0.0] * int(t[:-1].split("[")[1])
            elif t in _DEFAULT:
                v = _DEFAULT[t]()
            else:
                v = TYPES[t]()
            object.__setattr__(self, f, v)
        if kw:
            raise AttributeError(f"{type(self).__name__} has no fields {list(kw)}")

    def __setattr__(self, k, v):
        if k not in [f for f, _ in self._fields]:
            raise AttributeError(f"{type(self).__name__} has no attribute {k}")
        object.__setattr__(self, k, v)

    def _ser(self, out):
        for f, t in self._fields:
            try:
                _ser(t, getattr(self, f), out)
            except (struct.error, TypeError, AttributeError) as e:
                raise SerializationError(f"{self._type}.{f}: {e}") from None

    def serialize(self, buff):
        out = []
        self._ser(out)
        for o in out:
            buff.write(o)

    def raw(self):
        out = []
        self._ser(out)
        return b"".join(out)

    def copy(self):
        """Deep copy; raises like sending a message with invalid contents."""
        self.raw()
        m = type(self)()
        for f, t in self._fields:
            object.__setattr__(m, f, _copy(getattr(self, f)))
        return m

    def __eq__(self, o):
        return isinstance(o, type(self)) and all(
            getattr(self, f) == getattr(o, f) for f, _ in self._fields)

    __hash__ = None

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(f'{f}={getattr(self, f)!r}' for f, _ in self._fields)})"


class SerializationError(Exception):
    pass


def _copy(v):
    if isinstance(v, Message):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [_copy(x) for x in v]
    if isinstance(v, TVal):
        return type(v)(v.secs, v.nsecs)
    return v


def msg(pkg, name, fields, **const):
    fl = tuple(tuple(f.split()[::-1]) for f in fields.split(";")) if fields else ()
    cls = type(name, (Message,), dict(
        _type=f"{pkg}/{name}", _fields=fl,
        _has_header=bool(fl) and fl[0] == ("header", "Header"), **const))
    TYPES[name] = cls
    return cls


Header = msg("std_msgs", "Header", "uint32 seq;time stamp;string frame_id")
ColorRGBA = msg("std_msgs", "ColorRGBA", "float32 r;float32 g;float32 b;float32 a")
String = msg("std_msgs", "String", "string data")
Vector3 = msg("geometry_msgs", "Vector3", "float64 x;float64 y;float64 z")
Point = msg("geometry_msgs", "Point", "float64 x;float64 y;float64 z")
Quaternion = msg("geometry_msgs", "Quaternion", "float64 x;float64 y;float64 z;float64 w")
Pose = msg("geometry_msgs", "Pose", "Point position;Quaternion orientation")
PoseStamped = msg("geometry_msgs", "PoseStamped", "Header header;Pose pose")
Transform = msg("geometry_msgs", "Transform", "Vector3 translation;Quaternion rotation")
TransformStamped = msg("geometry_msgs", "TransformStamped",
                       "Header header;string child_frame_id;Transform transform")
Twist = msg("geometry_msgs", "Twist", "Vector3 linear;Vector3 angular")
TwistStamped = msg("geometry_msgs", "TwistStamped", "Header header;Twist twist")
PointStamped = msg("geometry_msgs", "PointStamped", "Header header;Point point")
Vector3Stamped = msg("geometry_msgs", "Vector3Stamped", "Header header;Vector3 vector")
QuaternionStamped = msg("geometry_msgs", "QuaternionStamped",
                        "Header header;Quaternion quaternion")
PoseWithCovariance = msg("geometry_msgs", "PoseWithCovariance",
                         "Pose pose;float64[36] covariance")
TwistWithCovariance = msg("geometry_msgs", "TwistWithCovariance",
                          "Twist twist;float64[36] covariance")
Odometry = msg("nav_msgs", "Odometry",
               "Header header;string child_frame_id;PoseWithCovariance pose;"
               "TwistWithCovariance twist")
tfMessage = msg("tf", "tfMessage", "TransformStamped[] transforms")
Marker = msg(
    "visualization_msgs", "Marker",
    "Header header;string ns;int32 id;int32 type;int32 action;Pose pose;Vector3 scale;"
    "ColorRGBA color;duration lifetime;bool frame_locked;Point[] points;"
    "ColorRGBA[] colors;string text;string mesh_resource;bool mesh_use_embedded_materials",
    ARROW=0, CUBE=1, SPHERE=2, CYLINDER=3, LINE_STRIP=4, LINE_LIST=5, CUBE_LIST=6,
    SPHERE_LIST=7, POINTS=8, TEXT_VIEW_FACING=9, MESH_RESOURCE=10, TRIANGLE_LIST=11,
    ADD=0, MODIFY=0, DELETE=2, DELETEALL=3)


# -- rospy -----------------------------------------------------------------
class Publisher:
    def __init__(self, name, data_class, subscriber_listener=None, tcp_nodelay=False,
                 latch=False, headers=None, queue_size=None):
        self.name = name
        self.data_class = data_class
        self.latch = latch
        self.queue_size = queue_size
        W.publishers.append(self)

    def publish(self, *args, **kw):
        if len(args) == 1 and not kw and isinstance(args[0], self.data_class):
            m = args[0]
        else:
            m = self.data_class(*args, **kw)
        if m._has_header:
            # rospy.msg.serialize_message: counts in the message itself
            self.seq = getattr(self, "seq", 0) + 1
            m.header.seq = self.seq
        W.record(self.name, m)

    def unregister(self):
        pass


class Subscriber:
    def __init__(self, name, data_class, callback=None, callback_args=None,
                 queue_size=None, buff_size=65536, tcp_nodelay=False):
        self.name = name
        self.data_class = data_class
        self.callback = callback
        W.subscribers.append(self)

    def unregister(self):
        if self in W.subscribers:
            W.subscribers.remove(self)


class ROSException(Exception):
    pass


class ROSInterruptException(ROSException, KeyboardInterrupt):
    pass


def is_shutdown():
    if W.on_is_shutdown is not None:
        return W.on_is_shutdown()
    return W.shutdown


def sleep(d):
    d = d.to_sec() if isinstance(d, TVal) else d
    W.sleeps.append(float(d))
    if W.on_sleep is not None:
        W.on_sleep(float(d))


def spin():
    if W.on_spin is not None:
        W.on_spin()


# -- tf2 -------------------------------------------------------------------
class TransformException(Exception):
    pass


class LookupException(TransformException):
    pass


class ConnectivityException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


def _qm(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return (aw * bw - ax * bx - ay * by - az * bz,
            aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw)


def _qn(q):
    n = sum(x * x for x in q) ** 0.5
    return tuple(x / n for x in q)


def _qc(q):
    return (q[0], -q[1], -q[2], -q[3])


def _qr(q, v):
    q = _qn(q)
    return _qm(_qm(q, (0.0,) + tuple(v)), _qc(q))[1:]


def _slerp(a, b, r):
    import math

    d = sum(x * y for x, y in zip(a, b))
    if d < 0:
        b, d = tuple(-x for x in b), -d
    if d > 1 - 1e-12:
        return _qn(tuple(x + r * (y - x) for x, y in zip(a, b)))
    th = math.acos(min(1.0, d))
    s = math.sin(th)
    return tuple((math.sin((1 - r) * th) * x + math.sin(r * th) * y) / s
                 for x, y in zip(a, b))


class Buffer:
    """tf2 buffer: per child frame a time cache or a static transform."""

    def __init__(self, cache_time=None, debug=True):
        if cache_time is not None and not isinstance(cache_time, Duration):
            raise TypeError("cache_time must be a Duration")
        self.cache_ns = (10 * 10**9 if cache_time is None else cache_time.to_nsec())
        self.frames = {}  # child -> ("static", parent, t, q) or list of samples
        self.inserts = []
        W.buffers.append(self)

    @staticmethod
    def _unpack(m):
        t, r = m.transform.translation, m.transform.rotation
        m.raw()
        q = (r.w, r.x, r.y, r.z)
        if abs(sum(x * x for x in q) - 1) > 1e-2:
            raise TransformException("quaternion not normalised")
        if not m.child_frame_id or not m.header.frame_id:
            raise TransformException("frame id not set")
        return (m.header.stamp.to_nsec(), m.header.frame_id, (t.x, t.y, t.z), _qn(q))

    def set_transform_static(self, m, authority):
        s, p, t, q = self._unpack(m)
        self.inserts.append(("static", m.copy()))
        self.frames[m.child_frame_id] = ("static", p, t, q)

    def set_transform(self, m, authority):
        s, p, t, q = self._unpack(m)
        self.inserts.append(("stamped", m.copy()))
        c = self.frames.setdefault(m.child_frame_id, [])
        if not isinstance(c, list):
            c = self.frames[m.child_frame_id] = []
        if c and c[-1][0] > s + self.cache_ns:
            return
        if any(x[0] == s for x in c):
            return
        c.append((s, p, t, q))
        c.sort(key=lambda x: x[0])
        latest = c[-1][0]
        while c and c[0][0] + self.cache_ns < latest:
            c.pop(0)

    def _parent(self, f):
        c = self.frames.get(f)
        if not c:
            return None
        return c[1] if isinstance(c, tuple) else c[-1][1]

    def _known(self, f):
        return f in self.frames or any(self._parent(x) == f for x in self.frames)

    def _edge(self, f, s):
        c = self.frames[f]
        if isinstance(c, tuple):
            return c[2], c[3]
        if s == 0:
            return c[-1][2:]
        if s < c[0][0] or s > c[-1][0]:
            raise ExtrapolationException(f"{f}: {s} not in {c[0][0]}..{c[-1][0]}")
        for a, b in zip(c, c[1:] + c[-1:]):
            if a[0] == s:
                return a[2:]
            if a[0] < s < b[0]:
                r = (s - a[0]) / (b[0] - a[0])
                return (tuple(x + r * (y - x) for x, y in zip(a[2], b[2])),
                        _slerp(a[3], b[3], r))
        return c[-1][2:]

    def lookup_transform(self, target, source, time, timeout=None):
        for f in (target, source):
            if not self._known(f):
                raise LookupException(f'"{f}" does not exist')

        def chain(f):
            out = [f]
            while self._parent(out[-1]) is not None:
                out.append(self._parent(out[-1]))
            return out

        a, b = chain(source), chain(target)
        common = [x for x in a if x in b]
        if not common:
            raise ConnectivityException(f"{target} and {source} not connected")
        top = common[0]
        ups, downs = a[:a.index(top)], b[:b.index(top)]
        s = time.to_nsec()
        if s == 0:
            # latest common time
            times = [self.frames[f][-1][0] for f in ups + downs
                     if isinstance(self.frames[f], list)]
            s = min(times) if times else 0

        def total(fs):
            t, q = (0.0, 0.0, 0.0), (1.0, 0.0, 0.0, 0.0)
            for f in fs:
                te, qe = self._edge(f, s)
                t = tuple(x + y for x, y in zip(_qr(qe, t), te))
                q = _qm(qe, q)
            return t, q

        ts, qs = total(ups)
        tt, qt = total(downs)
        qi = _qc(_qn(qt))
        t = _qr(qi, tuple(x - y for x, y in zip(ts, tt)))
        q = _qm(qi, qs)
        m = TransformStamped()
        m.header.stamp = Time(s // 10**9, s % 10**9)
        m.header.frame_id = target
        m.child_frame_id = source
        m.transform.translation = Vector3(*t)
        m.transform.rotation = Quaternion(q[1], q[2], q[3], q[0])
        return m

    def can_transform(self, target, source, time, timeout=None):
        try:
            self.lookup_transform(target, source, time)
        except TransformException:
            return False
        return True


class TransformBroadcaster:
    topic, latch = "/tf", False

    def __init__(self):
        import rospy

        self.pub_tf = rospy.Publisher(self.topic, tfMessage, queue_size=100, latch=self.latch)

    def sendTransform(self, transform):
        if not isinstance(transform, list):
            transform = [transform]
        for t in transform:
            if not isinstance(t, TransformStamped):
                raise TypeError("TransformStamped expected")
        self.pub_tf.publish(tfMessage(transform))


class StaticTransformBroadcaster(TransformBroadcaster):
    topic, latch = "/tf_static", True


def _tf(transform):
    t, r = transform.transform.translation, transform.transform.rotation
    return (t.x, t.y, t.z), (r.w, r.x, r.y, r.z)


def do_transform_vector3(v, transform):
    t, q = _tf(transform)
    res = Vector3Stamped()
    res.vector = Vector3(*_qr(q, (v.vector.x, v.vector.y, v.vector.z)))
    res.header = transform.header
    return res


def do_transform_point(p, transform):
    t, q = _tf(transform)
    r = _qr(q, (p.point.x, p.point.y, p.point.z))
    res = PointStamped()
    res.point = Point(*(x + y for x, y in zip(r, t)))
    res.header = transform.header
    return res


def do_transform_pose(p, transform):
    t, q = _tf(transform)
    o = p.pose.orientation
    r = _qr(q, (p.pose.position.x, p.pose.position.y, p.pose.position.z))
    qq = _qm(_qn(q), _qn((o.w, o.x, o.y, o.z)))
    if qq[0] < 0:  # as computed from a rotation matrix by KDL
        qq = tuple(-x for x in qq)
    res = PoseStamped()
    res.pose.position = Point(*(x + y for x, y in zip(r, t)))
    res.pose.orientation = Quaternion(qq[1], qq[2], qq[3], qq[0])
    res.header = transform.header
    return res
