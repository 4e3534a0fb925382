"""Runs the library in a fresh interpreter in which some packages are missing.

usage: optdriver.py REPO STUBS OUT MISSING...
Runs every operation and pickles what each of them did.
"""
import os
import pickle
import shutil
import sys
import tempfile
import warnings

warnings.simplefilter("ignore")
REPO, STUBS, OUT = sys.argv[1:4]
MISSING = set(sys.argv[4:])
ROS = {"rospy", "roslaunch", "rosbag", "rospkg", "tf", "tf2_ros", "tf2_msgs",
       "tf2_geometry_msgs", "geometry_msgs", "nav_msgs", "std_msgs", "visualization_msgs",
       "PyKDL", "_ros"}
NOTEBOOK = {"IPython", "ipywidgets", "jupyros"}
HIDDEN = set()
for m in MISSING:
    HIDDEN |= ROS if m == "ros" else NOTEBOOK if m == "notebook" else {m}


class Blocker:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in HIDDEN:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


sys.meta_path.insert(0, Blocker())
# conventions of the documentation: ROS lives outside the library's directory
sys.path.insert(0, STUBS)
sys.path.insert(0, REPO)

out = {"import": None, "ops": {}}


def finish():
    with open(OUT + ".part", "wb") as f:
        pickle.dump(out, f)
    os.replace(OUT + ".part", OUT)
    sys.stdout.flush()
    os._exit(0)


try:
    import rigid_body_motion as rbm
except BaseException as e:  # noqa
    out["import"] = (isinstance(e, ImportError), repr(e))
    finish()

import numpy as np  # noqa: E402

np.seterr(all="ignore")
T = np.arange(12) * 0.1
P = np.stack((np.sin(T), np.cos(2 * T), T), axis=1)
A = np.stack((0.5 * np.sin(T), 0.3 * T, 0.2 * np.cos(T)), axis=1)
FOLDER = tempfile.mkdtemp(dir=os.path.dirname(OUT))


def plain(x):
    """Results without types of optional packages."""
    if x is None or isinstance(x, (str, bool, int, float)):
        return x
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "data_vars") or (hasattr(x, "dims") and hasattr(x, "coords")):
        d = {"dims": [str(v) for v in x.dims], "attrs": plain(dict(x.attrs)),
             "coords": {str(k): plain(np.asarray(v)) for k, v in x.coords.items()}}
        if hasattr(x, "data_vars"):
            d["dims"] = sorted(d["dims"])
            d["vars"] = {str(k): plain(v.values) for k, v in x.data_vars.items()}
        else:
            d["values"] = plain(x.values)
        return d
    x = np.asarray(x)
    if x.dtype.kind in "mM":
        return x.astype("datetime64[ns]" if x.dtype.kind == "M" else "timedelta64[ns]").astype(
            "int64")
    if x.dtype.kind in "biuf":
        return x.astype(float)
    if x.dtype.name == "quaternion":
        from quaternion import as_float_array

        return np.array(as_float_array(x))
    return [str(v) for v in x.ravel()]


def build():
    rbm.clear_registry()
    q = rbm.from_euler_angles(A)
    rbm.register_frame("world")
    rbm.register_frame("s", "world", translation=(1.0, 2, 3), rotation=(0.5, 0.5, -0.5, 0.5))
    rbm.register_frame("m", "s", translation=P, rotation=q, timestamps=T)
    rbm.register_frame("e", "m", translation=P[:4], timestamps=T[[0, 3, 5, 9]], discrete=True)
    rbm.register_frame("d", "s", translation=P[:6], rotation=q[:6],
                       timestamps=np.datetime64("2020-01-01", "ms") + (
                           100 * np.arange(6)).astype("timedelta64[ms]"), inverse=True)


def state():
    def arr(x):
        return None if x is None else (str(x.dtype), x.tobytes())

    return {k: (arr(f.translation), arr(f.rotation), arr(f.timestamps),
                None if f.parent is None else f.parent.name, [c.name for c in f.children],
                f.discrete)
            for k, f in rbm.registry.items()}


OPS = {}


def op(needs=()):
    def deco(f):
        OPS[f.__name__] = (tuple(needs.split()) if isinstance(needs, str) else tuple(needs), f)
        return f

    return deco


# -- no optional package needed ----------------------------------------------
@op()
def lookups():
    return [rbm.lookup_transform(a, b, return_timestamps=True)
            for a, b in (("s", "world"), ("world", "m"), ("m", "s"), ("world", "e"), ("d", "s"))]


@op()
def pose():
    return rbm.lookup_pose("m", "world", return_timestamps=True)


@op()
def frame_methods():
    f = rbm.registry["m"]
    return [f.lookup_transform("world"), f.transform_points((1.0, 2, 3), "world"),
            f.transform_vectors(P, "world", timestamps=T, return_timestamps=True)]


@op()
def transforms():
    q = rbm.from_euler_angles(A)
    return [rbm.transform_points(P, "world", "m", timestamps=T),
            rbm.transform_vectors(P[::2], "world", "m", timestamps=T[::2]),
            rbm.transform_quaternions(q, "m", "world", timestamps=T),
            rbm.transform_points((1.0, 2, 3), "e", "world", return_timestamps=True),
            rbm.transform_points(P, "s", "world")]


@op()
def twists():
    return [rbm.lookup_twist("m", "world", return_timestamps=True),
            rbm.lookup_twist("m", "s", mode="rotation_vector"),
            rbm.lookup_linear_velocity("m", "world", outlier_thresh=5.0),
            rbm.lookup_angular_velocity("m", "s", "m"),
            rbm.lookup_angular_velocity("d", "s")]


@op()
def velocity_transforms():
    return [rbm.transform_linear_velocity(P, "world", "m", moving_frame="s", timestamps=T),
            rbm.transform_angular_velocity(P, "s", "m", what="moving_frame", timestamps=T)]


@op()
def estimates():
    q = rbm.from_euler_angles(A)
    return [rbm.estimate_linear_velocity(P, timestamps=T),
            rbm.estimate_linear_velocity(np.tile(P, (3, 1)), timestamps=np.arange(36.0), cutoff=0.25),
            rbm.estimate_angular_velocity(q, timestamps=T),
            rbm.estimate_angular_velocity(q, timestamps=T, mode="rotation_vector")]


@op()
def alignment():
    t = rbm.rotate_vectors(np.array([0.5, 0.5, 0.5, 0.5]), P) + 1.0
    return [rbm.best_fit_rotation(P, t - 1.0), rbm.best_fit_transform(P, t),
            rbm.iterative_closest_point(P[:3], P[:3] + 0.01),
            rbm.shortest_arc_rotation(np.array([1.0, 2, 3]), np.array([0.0, 1, 1]))]


@op()
def coordinates():
    s = rbm.cartesian_to_spherical(P)
    return [s, rbm.spherical_to_cartesian(s), rbm.cartesian_to_polar(P[:, :2]),
            rbm.transform_coordinates(P, "spherical", "cartesian")]


@op()
def quaternions():
    q = rbm.from_euler_angles(A)
    return [q, rbm.qinv(q), rbm.qmul(q, q[::-1]), rbm.qmean(q), rbm.qmean(q, axis=0),
            rbm.rotate_vectors(q, P), rbm.qinterp(q, T, T[:-1] + 0.05)]


@op()
def registry():
    rbm.register_frame("new", "s", translation=(1.0, 0, 0))
    r = [sorted(rbm.registry), rbm.lookup_transform("new", "world")]
    rbm.register_frame("new", "world", update=True)
    r.append(rbm.lookup_transform("new", "world"))
    rbm.registry["new"].parent = None
    rbm.deregister_frame("new")
    return r + [sorted(rbm.registry)]


@op()
def rendering():
    import contextlib
    import io

    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        rbm.render_tree("world")
    return s.getvalue()


@op()
def rejected():
    out = []
    for f in (lambda: rbm.lookup_transform("world", "nowhere"), lambda: rbm.register_frame("m"),
              lambda: rbm.transform_points(P, "world", "m", timestamps=T[:3]),
              lambda: rbm.cartesian_to_spherical(P[:, :2])):
        try:
            f()
            out.append("accepted")
        except ImportError as e:
            out.append(repr(e))
        except Exception:
            out.append("rejected")
    return out


@op()
def names():
    return [hasattr(rbm, n) for n in rbm.__all__] + [
        callable(getattr(rbm.plot, n)) for n in ("reference_frame", "points", "quaternions",
                                                 "vectors")] + [
        callable(getattr(rbm.ros, n)) for n in (
            "RosbagReader", "RosbagWriter", "Transformer", "ReferenceFrameTransformBroadcaster",
            "init_node", "play_publisher", "ReferenceFrameMarkerPublisher")]


@op()
def unknown_example():
    try:
        rbm.example_data["nothing"]
    except KeyError:
        return "rejected"
    except ImportError:
        if "pooch" in MISSING:
            return "rejected"
        raise


# -- xarray -------------------------------------------------------------------
def da():
    import xarray as xr

    return xr.DataArray(P, {"time": T, "xyz": ["x", "y", "z"]}, ("time", "xyz"), name="p")


@op("xarray")
def results_as_xarray():
    return [rbm.lookup_transform("m", "world", as_dataset=True),
            rbm.lookup_pose("s", "world", as_dataset=True),
            rbm.lookup_twist("m", "world", as_dataset=True),
            rbm.lookup_linear_velocity("m", "world", as_dataarray=True),
            rbm.lookup_angular_velocity("m", "world", as_dataarray=True)]


@op("xarray")
def transform_as_xarray():
    return rbm.lookup_transform("m", "world", as_dataset=True)


@op("xarray")
def pose_as_xarray():
    return rbm.lookup_pose("s", "world", as_dataset=True)


@op("xarray")
def twist_as_xarray():
    return rbm.lookup_twist("m", "world", as_dataset=True)


@op("xarray")
def velocity_as_xarray():
    return rbm.lookup_linear_velocity("m", "world", as_dataarray=True)


@op("xarray")
def dataarrays():
    return [rbm.transform_points(da(), "world", "m", dim="xyz", timestamps="time"),
            rbm.estimate_linear_velocity(da(), dim="xyz", timestamps="time"),
            rbm.transform_coordinates(da(), "spherical", "cartesian", dim="xyz"),
            rbm.best_fit_transform(da(), da() + 1.0, dim="xyz"),
            rbm.shortest_arc_rotation(da(), da()[::-1].assign_coords(time=T), dim="xyz")]


@op("xarray")
def accessor():
    import xarray as xr

    q = xr.DataArray(rbm.from_euler_angles(A), {"time": T, "q": ["w", "x", "y", "z"]},
                     ("time", "q"))
    return [q.rbm.qinv("q"), q.rbm.qinterp(time=T[:-1] + 0.05, qdim="q")]


@op("xarray")
def from_dataset():
    ds = rbm.lookup_transform("m", "world", as_dataset=True)
    f = rbm.ReferenceFrame.from_dataset(ds, "translation", "rotation", "time", "world")
    r = f.lookup_transform("world")
    f.parent = None
    return r


# -- pandas -------------------------------------------------------------------
def csv():
    p = os.path.join(FOLDER, "a.csv")
    if not os.path.exists(p):
        with open(p, "w") as f:
            f.write("Format Version,1.23,Take Name,x,Capture Start Time,"
                    "2019-01-25 11.25.50.918 AM,Rotation Type,XYZ,Length Units,Millimeters\n\n"
                    ",,Rigid Body,Rigid Body,Rigid Body,Rigid Body,Rigid Body,Rigid Body\n"
                    ",,b,b,b,b,b,b\n,,1,1,1,1,1,1\n"
                    ",,Rotation,Rotation,Rotation,Position,Position,Position\n"
                    "Frame,Time,X,Y,Z,X,Y,Z\n0,0.0,10,20,30,100,200,300\n1,0.5,11,21,31,101,201,301\n")
    return p


@op("pandas")
def optitrack():
    return rbm.io.load_optitrack(csv())


@op("pandas")
def optitrack_pandas():
    r = rbm.io.load_optitrack(csv(), "pandas")
    return {k: [v.values, np.asarray(v.index.values)] for k, v in r.items()}


@op("pandas xarray")
def optitrack_xarray():
    return rbm.io.load_optitrack(csv(), "xarray")


# -- matplotlib ---------------------------------------------------------------
def axes(r):
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    ax = plt.gcf().axes[0]
    lim = [ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]
    plt.close("all")
    return lim


@op("matplotlib")
def plot_points():
    return axes(rbm.plot.points(P))


@op("matplotlib")
def plot_vectors():
    return axes(rbm.plot.vectors(P))


@op("matplotlib")
def plot_quaternions():
    return axes(rbm.plot.quaternions(rbm.from_euler_angles(A)))


@op("matplotlib")
def plot_frame():
    return axes(rbm.plot.reference_frame("s", "world"))


@op("matplotlib")
def plotting_module():
    from rigid_body_motion import plotting

    return axes(plotting.plot_points(P))


# -- pooch --------------------------------------------------------------------
@op("pooch")
def example():
    if "pooch" in MISSING:
        return str(rbm.example_data["head"])
    import pooch

    real, calls = pooch.retrieve, []
    pooch.retrieve = lambda *a, **kw: calls.append(1) or "/some/path"
    try:
        return [str(rbm.example_data["head"]), len(calls)]
    finally:
        pooch.retrieve = real


# -- ROS ----------------------------------------------------------------------
def world():
    if "ros" not in MISSING:
        import _ros

        _ros.reset()


@op("ros")
def transformer():
    rbm.registry["d"].parent = None
    try:
        t = rbm.ros.Transformer.from_reference_frame(rbm.registry["m"])
        return [t.lookup_transform("world", "m", 0.35), t.can_transform("m", "world", 7.0),
                t.transform_point((1.0, 2, 3), "world", "m", 0.5)]
    finally:
        rbm.registry["d"].parent = rbm.registry["s"]


@op("ros pandas")
def broadcaster():
    world()
    b = rbm.ros.ReferenceFrameTransformBroadcaster("m", publish_pose=True, publish_twist=True)
    b.publish(3)
    import _ros

    return [len(_ros.W.published)] + [
        [m.twist.linear.x, m.twist.angular.z] for k, m in _ros.W.published if "twist" in k]


@op("ros")
def marker():
    world()
    p = rbm.ros.ReferenceFrameMarkerPublisher("m")
    p.publish()
    import _ros

    return [[v.x, v.y, v.z] for v in _ros.W.published[0][1].points]


@op("ros")
def node():
    return type(rbm.ros.init_node("n")).__name__


@op("ros")
def bag():
    p = os.path.join(FOLDER, "a.bag")
    with rbm.ros.RosbagWriter(p) as w:
        w.write_transform_stamped(T, P, rbm.from_euler_angles(A), "/t", "world", "m")
    with rbm.ros.RosbagReader(p) as r:
        return [r.get_topics_and_types(), r.load_messages("/t")]


@op("ros pandas xarray")
def bag_dataset():
    bag()
    with rbm.ros.RosbagReader(os.path.join(FOLDER, "a.bag")) as r:
        return r.load_dataset("/t")


@op("ros pandas xarray netCDF4")
def bag_export():
    bag()
    p = os.path.join(FOLDER, "out.nc")
    with rbm.ros.RosbagReader(os.path.join(FOLDER, "a.bag")) as r:
        try:
            r.export("/t", p)
        except Exception:
            if os.path.exists(p):
                raise AssertionError("file left behind")
            raise
    import xarray as xr

    with xr.open_dataset(p) as ds:
        ds = ds.load()
    os.remove(p)
    return ds


@op("ros notebook")
def widget():
    class Pub:
        timestamps = T

        def publish(self, idx=None):
            pass

    return rbm.ros.play_publisher(Pub())


only = os.environ.get("OPT_OPS")
for name, (needs, f) in OPS.items():
    if only and name not in only.split(","):
        continue
    build()
    before = state()
    try:
        r = ("ok", plain(f()))
    except BaseException as e:  # noqa
        r = ("raise", isinstance(e, ImportError), repr(e))
    out["ops"][name] = (needs, r, state() == before,
                        sorted(os.listdir(FOLDER)))
shutil.rmtree(FOLDER, ignore_errors=True)
finish()
