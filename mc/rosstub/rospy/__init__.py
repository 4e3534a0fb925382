import _ros
from _ros import (Time, Duration, Publisher, Subscriber, ROSException,
                  ROSInterruptException, is_shutdown, sleep, spin)


class _Master:
    def getPid(self):
        _ros.W.events.append(("getPid",))
        return _ros.W.master_pid()


def get_master():
    return _Master()


def init_node(name, *args, **kw):
    _ros.W.events.append(("init_node", name))
    if _ros.W.on_init_node is not None:
        _ros.W.on_init_node(name)


def loginfo(*a):
    _ros.W.events.append(("loginfo",) + a)


logwarn = logerr = loginfo


def get_time():
    return _ros.W.now()
