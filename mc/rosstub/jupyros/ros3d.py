"""Widgets of jupyros.ros3d that record their arguments."""


class _Widget:
    _allowed = ()

    def __init__(self, **kw):
        unknown = set(kw) - set(self._allowed)
        if unknown:
            raise TypeError(f"unexpected arguments {sorted(unknown)}")
        self.kw = kw


class ROSConnection(_Widget):
    _allowed = ("url",)


class TFClient(_Widget):
    _allowed = ("angular_treshold", "translational_treshold", "rate", "fixed_frame", "ros")


class Marker(_Widget):
    _allowed = ("ros", "tf_client", "topic", "path", "lifetime")
