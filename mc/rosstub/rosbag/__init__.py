"""Bag files as pickled records; same reading and writing interface."""
import collections
import os
import pickle

import _ros

TopicTuple = collections.namedtuple(
    "TopicTuple", ["msg_type", "message_count", "connections", "frequency"])
TypesAndTopicsTuple = collections.namedtuple(
    "TypesAndTopicsTuple", ["msg_types", "topics"])
BagMessage = collections.namedtuple("BagMessage", "topic message timestamp")


def _dump(m):
    if isinstance(m, _ros.Message):
        return ("m", m._type.split("/")[1],
                [(f, _dump(getattr(m, f))) for f, _ in m._fields])
    if isinstance(m, _ros.TVal):
        return ("t", type(m).__name__, m.secs, m.nsecs)
    if isinstance(m, (list, tuple)):
        return ("l", [_dump(x) for x in m])
    if isinstance(m, (str, bytes, bool, int)):
        return ("v", m)
    return ("v", float(m))


def _load(d):
    if d[0] == "m":
        m = _ros.TYPES[d[1]]()
        for f, v in d[2]:
            setattr(m, f, _load(v))
        return m
    if d[0] == "t":
        return getattr(_ros, d[1])(d[2], d[3])
    if d[0] == "l":
        return [_load(x) for x in d[1]]
    return d[1]


class ROSBagException(Exception):
    pass


class Bag:
    def __init__(self, f, mode="r", compression="none", **kw):
        self._filename = os.fspath(f)
        self._mode = mode
        self._closed = False
        _ros.W.events.append(("open", self._filename, mode))
        _ros.W.bags.append(self)
        if mode == "r":
            with open(self._filename, "rb") as fh:
                self._rec = pickle.load(fh)
        elif mode == "w":
            self._rec = []
            self._fh = open(self._filename, "wb")
        else:
            raise ValueError("mode")

    def write(self, topic, msg, t=None, raw=False, connection_header=None):
        if self._closed or self._mode == "r":
            raise ValueError("I/O operation on closed bag")
        if not topic:
            raise ValueError("topic is invalid")
        msg.raw()
        t = t or _ros.Time.from_sec(_ros.W.now())
        self._rec.append((t.to_nsec(), topic, _dump(msg)))

    def _sel(self, topics):
        if topics is None:
            return lambda t: True
        if isinstance(topics, str):
            topics = [topics]
        return lambda t: t in topics

    def read_messages(self, topics=None, start_time=None, end_time=None, **kw):
        if self._closed:
            raise ValueError("I/O operation on closed bag")
        sel = self._sel(topics)
        for ns, topic, d in sorted(self._rec, key=lambda r: r[0]):
            if sel(topic):
                yield BagMessage(topic, _load(d), _ros.Time(ns // 10**9, ns % 10**9))

    def get_type_and_topic_info(self, topic_filters=None):
        if self._closed:
            raise ValueError("I/O operation on closed bag")
        sel = self._sel(topic_filters)
        topics, types = {}, {}
        for ns, topic, d in self._rec:
            if not sel(topic):
                continue
            typ = _ros.TYPES[d[1]]._type
            n = topics[topic].message_count if topic in topics else 0
            topics[topic] = TopicTuple(typ, n + 1, 1, None)
            types[typ] = "*"
        return TypesAndTopicsTuple(types, topics)

    def close(self):
        if self._mode == "w" and not self._closed:
            pickle.dump(self._rec, self._fh)
            self._fh.close()
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
