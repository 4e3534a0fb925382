"""Synthetic test motions."""
import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, fresh

ASSUMPTIONS = [
    "the parts of a stacked motion are as equal as possible, longer ones first",
    "timestamps are judged to one nanosecond per sample (resolution of the sampling interval)",
]
FS = [1000, 1, 3, 7, 30, 100, 120, 2.5, 20000, 1e6]
OFF = {"none": None, "tuple": (1.0, -2.0, 0.5), "list": [0, 0, 3], "array": np.array([0.1, 0, 0]),
       "zero": (0.0, 0.0, 0.0)}


def expected(n, freq, angle, fs, stack, inverse, offset):
    A = -angle if inverse else angle
    s = np.array([A * np.sin(2 * np.pi * freq * k / fs) for k in range(n)])
    t = np.zeros((n, 3))
    if stack:
        start = 0
        for ax in range(3):
            size = n // 3 + (ax < n % 3)
            t[start:start + size, ax] = s[start:start + size]
            start += size
    else:
        t[:] = s[:, None]
    r = np.zeros((n, 4))
    for k in range(n):
        a = np.linalg.norm(t[k])
        r[k] = ref.axang(t[k] / a, a) if a > 1e-12 else (1, 0, 0, 0)
    if offset is not None:
        t = t + np.array([ref.rot(r[k], np.array(offset, float)) for k in range(n)]).reshape(n, 3)
    return t, r


def motion(ch):
    fresh()
    from rigid_body_motion.testing import make_test_motion

    n = ch.choose("samples", [6, 1, 2, 3, 4, 5, 7, 8, 10, 100], free=True)
    freq = ch.choose("freq", [1, 0, 2.5, -1], free=True)
    angle = ch.choose("max_angle", [np.pi / 2, 0.1, np.pi, -1.0, 0], free=True)
    fs = ch.choose("fs", FS, free=True)
    stack = ch.choose("stack", [True, False], free=True)
    inverse = ch.choose("inverse", [False, True], free=True)
    off = ch.choose("offset", list(OFF), free=True)
    ch.assume(n < 100 or freq == 1 and angle in (0.1, np.pi))
    kw = {}
    # defaults may be left out
    for k, v, d in (("freq", freq, 1), ("max_angle", angle, np.pi / 2), ("fs", fs, 1000),
                    ("stack", stack, True), ("inverse", inverse, False), ("offset", OFF[off], None)):
        if not (np.isscalar(v) and v == d or v is None):
            kw[k] = v
    keep = None if OFF[off] is None else np.array(OFF[off])
    ch.state(n, freq, angle, fs, stack, inverse, off)
    t, r, ts = make_test_motion(n, **kw)
    ch.step()
    wt, wr = expected(n, freq, angle, fs, stack, inverse, OFF[off])
    ch.check(np.shape(t) == (n, 3) and np.allclose(t, wt, 0, 1e-9), "translation", cmp(t, wt))
    r = np.asarray(r)
    ch.check(r.shape == (n, 4) and np.allclose(np.sum(r * r, -1), 1, 0, 1e-9), "unit quaternions")
    ch.check(np.allclose(np.abs(np.sum(r * wr, -1)), 1, 0, 1e-9), "rotation", cmp(r, wr))
    ns = np.asarray(ts).astype("datetime64[ns]").astype("int64")
    want = np.arange(n) / fs * 1e9
    ch.check(len(ns) == n and np.all(np.abs(ns - want) <= 1 + np.arange(n)), "timestamps",
             lambda: f"{ns} {want}")
    ch.check(keep is None or np.array_equal(keep, np.array(OFF[off])), "offset modified")
    ch.outcome(np.round(wt, 3).tobytes())


def scenarios(tier):
    return [Scenario("motion", motion, None)]
