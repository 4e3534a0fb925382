"""Widgets with the semantics of ipywidgets/traitlets that matter here."""
import _ros


class TraitError(Exception):
    pass


class Layout:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Widget:
    def __init__(self, **kw):
        self._observers = []
        for k, v in kw.items():
            object.__setattr__(self, k, v)
        _ros.W.events.append(("widget", self))

    def observe(self, fn, names=None):
        self._observers.append(fn)

    def unobserve_all(self):
        self._observers = []


class _Bounded(Widget):
    """Integer value, clamped to [min, max], observers told about changes."""

    def __init__(self, min=0, max=100, value=None, step=1, **kw):
        if min > max:
            raise TraitError("setting min > max")
        for v in (min, max, step):
            if isinstance(v, float):
                raise TraitError("integer expected")
        object.__setattr__(self, "_value", min if value is None else value)
        super().__init__(min=min, max=max, step=step, **kw)
        self.value = self._value

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        if isinstance(v, bool) or not hasattr(v, "__index__"):
            raise TraitError(f"integer expected, got {v!r}")
        v = v.__index__()
        v = max(self.min, min(self.max, v))
        old, self._value = self._value, v
        if v != old:
            for fn in list(self._observers):
                fn({"name": "value", "old": old, "new": v, "owner": self})


class IntSlider(_Bounded):
    pass


class Play(_Bounded):
    """Timer: every ``interval`` ms the value advances by ``step``."""

    def tick(self):
        if self.value + self.step <= self.max:
            self.value += self.step
            return True
        return False


class Button(Widget):
    def on_click(self, fn, remove=False):
        self.__dict__.setdefault("_click", []).append(fn)

    def click(self):
        for fn in self._click:
            fn(self)


class HBox(Widget):
    def __init__(self, children=(), **kw):
        super().__init__(children=tuple(children), **kw)


VBox = Box = HBox
BoundedIntText = IntSlider


class Output(Widget):
    pass


def jslink(a, b):
    """Client-side link in both directions."""
    (wa, na), (wb, nb) = a, b
    setattr(wb, nb, getattr(wa, na))
    wa.observe(lambda ch: setattr(wb, nb, ch["new"]))
    wb.observe(lambda ch: setattr(wa, na, ch["new"]))
    _ros.W.events.append(("jslink", wa, wb))


def jsdlink(a, b):
    (wa, na), (wb, nb) = a, b
    setattr(wb, nb, getattr(wa, na))
    wa.observe(lambda ch: setattr(wb, nb, ch["new"]))


link = jslink
dlink = jsdlink


def interactive_output(f, controls):
    """Calls f now and whenever a control changes; errors are shown, not raised."""
    def update(*_):
        kw = {k: w.value for k, w in controls.items()}
        try:
            f(**kw)
        except Exception as e:
            _ros.W.events.append(("shown error", repr(e)))

    for w in controls.values():
        w.observe(update)
    update()
    return Output()
