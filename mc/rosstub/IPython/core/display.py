import _ros


def display(*objs, **kw):
    _ros.W.events.append(("display", objs))
