"""OptiTrack csv import recovers every rigid body's pose and time."""
import itertools
import os

import numpy as np

from mc import ref
from mc.explore import Scenario
from mc.util import cmp, scratch

ASSUMPTIONS = [
    "exports with at least one rigid body, distinct body names and Euler angle orientations",
    "declared orders are read as consecutive rotations about the moving axes, as in from_euler_angles",
    "timestamps to within 1 microsecond (the capture start has a resolution of 1 ms)",
]

ROT = ["XYZ", "XZY", "YXZ", "YZX", "ZXY", "ZYX"]
UNITS = {"Centimeters": 0.01, "Meters": 1.0, "Millimeters": 0.001, None: 1.0}
AX = list(itertools.permutations("XYZ"))
STARTS = {
    "2020-06-16 07.51.41.245 PM": "2020-06-16T19:51:41.245",
    "2020-06-16 07.51.41.245 AM": "2020-06-16T07:51:41.245",
    "2019-12-31 11.59.59.999 PM": "2019-12-31T23:59:59.999",
    "2020-02-29 12.00.00.000 AM": "2020-02-29T00:00:00.000",
    "2021-01-02 12.30.05.001 PM": "2021-01-02T12:30:05.001",
}
NAMES = [["RigidBody 01", "RigidBody 02", "RigidBody 03"], ["b", "a", "B"],
         ["10", "9", "1.5"], ["Head", "Position", "Rotation"], ["Rigid Body", "Marker", "x"],
         ["a b.c-d_e", "\u00e4", "Unlabeled 7"]]
ANG = np.array([0.0, 30, -45, 90, -90, 179.5, -180, 12.345678, 360, -0.000001])
POS = np.array([0.0, 1, -2.5, 123.456789, -0.001, 1e4, 7, 1e-6])


def write(path, *, names, rotation, units, motion, axes, markers, n, start, pad, newline, dt,
          ints=False, missing="none", extra=False, meta_order=False, frames="consecutive"):
    """Write an export; returns {name: (position in units, degrees)} and times."""
    k = frame = np.arange(n)
    if frames == "later part of the take":
        frame = frame + 4711
    elif frames == "dropped frames":
        frame = frame + (k > 0) + 5 * (k >= n - 1)
    t = np.round(frame * dt, 6)
    if frames == "uneven":
        t = np.round(t + 0.3 * dt * np.sin(3 * k), 6)
    cols = []  # (type, name, id, motion, axis, values)
    truth = {}

    def body(j, name):
        p = np.stack([np.resize(np.roll(POS, 3 * j + c), n) for c in range(3)], -1)
        r = np.stack([np.resize(np.roll(ANG, 2 * j + 3 * c + 1), n) for c in range(3)], -1)
        if ints:
            p, r = np.round(p), np.round(r)
        if missing == "first":
            p[0] = r[0] = np.nan
        elif missing == "last":
            p[-1] = r[-1] = np.nan
        elif missing == "all of the first body" and j == 0:
            p[:] = r[:] = np.nan
        elif missing == "one coordinate":
            p[n // 2, 1] = np.nan
        truth[name] = (p, r)
        for m in motion:
            for a in axes:
                v = (p if m == "Position" else r)[:, "XYZ".index(a)]
                cols.append(("Rigid Body", name, f"ID{j}", m, a, v))
        if extra:
            cols.append(("Rigid Body", name, f"ID{j}", "Mean Marker Error", "", k * 0.25))

    def marker(name, j, typ="Marker"):
        for a in "XYZ":
            cols.append((typ, name, f"M{j}", "Position", a, 100.0 * j + k + "XYZ".index(a)))

    if markers == "before":
        marker("Unlabeled 1", 1)
    for j, name in enumerate(names):
        body(j, name)
        if markers == "between":
            marker(name + ":Marker1", j)
            marker(name + ":Marker2", j + 1, "Rigid Body Marker")
    if markers == "after":
        for j, name in enumerate(names):
            marker(name + ":Marker1", j)
        marker("Unlabeled 1", 7)
    if markers == "named like a body":
        marker(names[0], 3)

    meta = ["Format Version", "1.22", "Take Name", "Test 1, b",
            "Capture Frame Rate", f"{round(1 / dt, 3):.6f}",
            "Export Frame Rate", f"{round(1 / dt, 3):.6f}", "Capture Start Time", start,
            "Total Frames in Take", str(n + 5000), "Total Exported Frames", str(n)]
    if rotation is not None:
        meta += ["Rotation Type", rotation]
    if units is not None:
        meta += ["Length Units", units]
    meta += ["Coordinate Space", "Global"]
    if meta_order:
        meta = sum(reversed([meta[i : i + 2] for i in range(0, len(meta), 2)]), [])

    def fmt(v):
        if isinstance(v, str):
            return f'"{v}"' if "," in v else v
        if np.isnan(v):
            return ""
        return str(int(v)) if ints else repr(float(v))

    width = max(len(meta), len(cols) + 2) if pad else 0
    rows = [meta, []]
    rows += [["", ""] + [c[i] for c in cols] for i in (0, 1, 2, 3)]
    rows += [["Frame", "Time (Seconds)"] + [c[4] for c in cols]]
    for i in range(n):
        rows.append([str(frame[i]), f"{t[i]:.6f}"] + [c[5][i] for c in cols])
    with open(path, "w", newline="", encoding="utf-8") as f:
        for r in rows:
            r = [fmt(v) for v in r]
            if r or pad:
                r += [""] * (width - len(r))
            f.write(",".join(r) + newline)
    return truth, t


def euler(deg, order):
    """Consecutive rotations about the moving axes, in the declared order."""
    q = np.tile([1.0, 0, 0, 0], (len(deg), 1))
    for c in order:
        i = "XYZ".index(c)
        q = ref.qmul(q, np.stack([ref.axang(np.eye(3)[i], np.deg2rad(a)) for a in deg[:, i]]))
    return q


def judge(ch, data, fmt, truth, t, start, rotation, units):
    import pandas as pd

    ch.check(isinstance(data, dict) and set(data) == set(truth), "bodies",
             lambda: f"{list(data)} instead of {list(truth)}")
    scale = UNITS[units]
    stamps = np.datetime64(STARTS[start], "ns") + np.round(t * 1e9).astype("timedelta64[ns]")
    out = {}
    for name, (p, r) in truth.items():
        d = data[name]
        if fmt == "numpy":
            ch.check(isinstance(d, tuple) and len(d) == 3, "format", type(d))
            gp, gq, gt = d
        elif fmt == "pandas":
            ch.check(isinstance(d, pd.DataFrame) and set(d.columns) ==
                     {("position", c) for c in "xyz"} | {("orientation", c) for c in "wxyz"},
                     "columns", lambda: f"{list(d.columns)}")
            gp = np.stack([d[("position", c)].values for c in "xyz"], -1)
            gq = np.stack([d[("orientation", c)].values for c in "wxyz"], -1)
            gt = d.index.values
        else:
            ch.check(set(d.data_vars) == {"position", "orientation"}, "variables", lambda: repr(d))
            x, y = d.position, d.orientation
            ch.check(x.dims == ("time", "cartesian_axis") and y.dims == ("time", "quaternion_axis"),
                     "dims", f"{x.dims} {y.dims}")
            ch.check(list(d.cartesian_axis.values) == list("xyz")
                     and list(d.quaternion_axis.values) == list("wxyz"), "labels", lambda: repr(d))
            gp, gq, gt = x.values, y.values, d.time.values
        gt = np.asarray(gt)
        ch.check(gt.shape == (len(t),) and gt.dtype.kind == "M", "time layout", f"{gt.dtype} {gt.shape}")
        dt = np.abs((gt - stamps).astype("timedelta64[ns]").astype(np.int64))
        ch.check(np.all(dt <= 1000), "time", cmp(gt, stamps))
        gp, gq = np.asarray(gp), np.asarray(gq)
        ch.check(gp.shape == p.shape and gq.shape == (len(t), 4), "layout", f"{gp.shape} {gq.shape}")
        ch.check(np.allclose(gp, p * scale, rtol=1e-9, atol=1e-12, equal_nan=True), "position",
                 cmp(gp, p * scale))
        want = euler(r, rotation or "XYZ")
        ok = np.isfinite(want).all(-1)
        ch.check(np.array_equal(np.isfinite(gq).all(-1), ok), "orientation of missing samples",
                 cmp(gq, want))
        ch.check(not ok.any() or ref.same_quat(gq[ok], want[ok]), "orientation", cmp(gq, want))
        ch.step(len(t))
        out[name] = (gp, gq, gt)
    return out


def run(ch, cfg, fmt, as_path):
    import pathlib

    from rigid_body_motion.io import load_optitrack

    path = os.path.join(scratch(), f"c21_{os.getpid()}.csv")
    try:
        truth, t = write(path, **cfg)
        keep = open(path, "rb").read()
        arg = pathlib.Path(path) if as_path else path
        kw = {} if fmt is None else {"import_format": fmt}
        data = load_optitrack(arg, **kw)
        ch.check(open(path, "rb").read() == keep, "file modified")
        out = judge(ch, data, fmt or "numpy", truth, t, cfg["start"], cfg["rotation"], cfg["units"])
        for p, q, _ in out.values():
            ch.outcome(np.round(p, 6).tobytes(), np.round(q, 6).tobytes())
    finally:
        if os.path.exists(path):
            os.unlink(path)


def columns(ch):
    """Rotation order x column order x units."""
    cfg = dict(
        rotation=ch.choose("rotation type", ROT + [None], free=True),
        axes=ch.choose("axis columns", AX, free=True),
        motion=ch.choose("motion columns", [("Rotation", "Position"), ("Position", "Rotation")],
                         free=True),
        units=ch.choose("units", list(UNITS), free=True),
        markers="none", names=NAMES[0][:1], n=10, start=list(STARTS)[0], pad=True, newline="\r\n",
        dt=0.016667)
    fmt = ch.choose("format", ["numpy", "pandas", "xarray"], free=True)
    ch.state(*cfg.values(), fmt)
    run(ch, cfg, fmt, False)


def layout(ch):
    """Bodies, markers and presentation of the file."""
    nb = ch.choose("bodies", [2, 1, 3], free=True)
    names = ch.choose("names", NAMES)[:nb]
    markers = ch.choose("markers", ["after", "none", "before", "between", "named like a body"],
                        free=True)
    fmt = ch.choose("format", [None, "pandas", "xarray", "numpy"], free=True)
    cfg = dict(
        names=names, markers=markers,
        rotation=ch.choose("rotation type", ["XYZ", "ZYX", "YXZ", None]),
        motion=ch.choose("motion columns", [("Rotation", "Position"), ("Position", "Rotation")]),
        axes=ch.choose("axis columns", [AX[0], AX[3], AX[5]]),
        units=ch.choose("units", list(UNITS)),
        n=ch.choose("samples", [4, 1, 2, 13]),
        start=ch.choose("capture start", list(STARTS)),
        dt=ch.choose("interval", [0.016667, 0.000125, 3.5, 4000.25]),
        pad=ch.choose("rows padded", [True, False]),
        newline=ch.choose("line end", ["\r\n", "\n"]),
        ints=ch.flag("integers"),
        missing=ch.choose("missing samples", ["none", "first", "last", "all of the first body",
                                              "one coordinate"]),
        extra=ch.flag("error column"),
        meta_order=ch.flag("metadata reversed"),
        frames=ch.choose("frames", ["consecutive", "later part of the take", "dropped frames",
                                    "uneven"]),
    )
    p = ch.flag("path object")
    ch.state(*map(str, cfg.values()), fmt, p)
    run(ch, cfg, fmt, p)


def large(ch):
    """Long takes and takes of many bodies."""
    n, nb = ch.choose("samples and bodies", [(1500, 2), (4100, 1), (20, 12), (3, 40)], free=True)
    fmt = ch.choose("format", ["numpy", "pandas", "xarray"], free=True)
    cfg = dict(
        names=[f"Body {i + 1}" for i in range(nb)],
        markers=ch.choose("markers", ["after", "none", "between"], free=True),
        rotation=ch.choose("rotation type", ["XYZ", "ZYX"]),
        motion=("Rotation", "Position"), axes=AX[0], units="Centimeters", n=n,
        start=list(STARTS)[0], dt=ch.choose("interval", [0.016667, 0.000125]),
        pad=ch.choose("rows padded", [True, False]), newline="\r\n",
        missing=ch.choose("missing samples", ["none", "last"]),
        frames=ch.choose("frames", ["consecutive", "dropped frames"]))
    ch.state(n, *map(str, cfg.values()), fmt)
    run(ch, cfg, fmt, False)


def rejected(ch):
    from rigid_body_motion.io import load_optitrack

    case = ch.choose("case", ["unknown format", "empty format", "upper case", "no file",
                              "unknown units", "unknown rotation type", "no start"], free=True)
    path = os.path.join(scratch(), f"c21_{os.getpid()}.csv")
    cfg = dict(rotation="XYZ", axes=AX[0], motion=("Rotation", "Position"), units="Meters",
               markers="after", names=NAMES[0], n=3, start=list(STARTS)[0], pad=True,
               newline="\n", dt=0.01)
    fmt = {"unknown format": "csv", "empty format": "", "upper case": "NUMPY"}.get(case, "numpy")
    if case == "unknown units":
        cfg["units"] = "Parsecs"
    if case == "unknown rotation type":
        cfg["rotation"] = "XYX"
    if case == "no start":
        cfg["start"] = "yesterday"
    ch.state(case)
    try:
        write(path, **cfg)
        if case == "no file":
            os.unlink(path)
        ch.raises(lambda: load_optitrack(path, fmt), "accepted: " + case)
    finally:
        if os.path.exists(path):
            os.unlink(path)


def scenarios(tier):
    if tier == "quick":
        return [Scenario("columns", columns), Scenario("layout", layout, 1),
                Scenario("large takes", large, 0), Scenario("rejected", rejected)]
    return [Scenario("columns", columns), Scenario("layout", layout, 2),
            Scenario("large takes", large, 1), Scenario("rejected", rejected)]
