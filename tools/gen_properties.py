"""Writes /verif/properties.jsonl (kept as a generator so the prose stays reviewable)."""
import json, os
R = "rigid_body_motion/"
def P(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[R+f for f in files],
            state=[dict(name=a, meaning=b, where=R+c) for a, b, c in state],
            mechanism=[dict(name=a, where=R+b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook))
props = [
P("C01", "Static transforms compose along the path in any frame tree",
  "For any tree of static reference frames, with each frame's translation and rotation given directly or with inverse=True and as any non-zero quaternion, the transform looked up from one frame to another equals the composition of the per-edge rigid transforms along the connecting path. In particular the transform from a frame to itself is the identity, A to B is the inverse of B to A, and A to B followed by B to C equals A to C. Frames in different trees cannot be transformed into each other and the attempt raises an error.",
  ["inputs", "configurations"], "all tree shapes with up to 4 (quick) or 5 (thorough) frames x all ordered source/target pairs x per-edge poses from an alphabet (identity, axis rotations, a generic rotation, half turn, negated and non-unit quaternions, partial specification) x inverse flag x way of naming frames",
  "tests/test_reference_frames.py and the transform_test_grid.csv sample one fixed tree of five frames with fixed poses; they never vary shape, the inverse flag per edge, or non-unit rotations.",
  ["reference_frames.py", "core.py", "utils.py", "__init__.py"],
  [("ReferenceFrame._walk/_get_matcher", "reference_frames.py"), ("TransformMatcher.get_transformation", "core.py"), ("ReferenceFrame._init_arrays (inverse)", "reference_frames.py")],
  [("parent/children links", "frame tree", "reference_frames.py"), ("translation, rotation", "pose wrt parent", "reference_frames.py")],
  ["rbm.lookup_transform", "rbm.lookup_pose", "ReferenceFrame.lookup_transform", "rbm.transform_points"]),
P("C02", "Array transforms act element-wise in every array layout",
  "Transforming an array of points, vectors or quaternions from one frame into another applies that pair's rigid transform to every element (rotation and translation for points, rotation only for vectors, left multiplication for quaternions), whatever the array's number of dimensions, numeric dtype, spatial axis (positive or negative) and time axis. The result keeps the input's layout; only the time axis may change length, and only when timestamps are given. Shapes that do not fit (wrong spatial length, timestamps not matching the time axis) raise an error instead of producing a result.",
  ["inputs", "configurations"], "all axis/time_axis assignments of 1- to 4-dimensional arrays with colliding dimension lengths (including 3 and 4) x {points, vectors, quaternions} x {static, moving, discrete} source-target pairs x {no timestamps, timestamps} x dtype x entry point",
  "tests use (10,3), (10,5,3) and one time_axis=1 case with axis=-1 on identity-heavy frames; no test has a spatial axis other than the last combined with translation or time.",
  ["reference_frames.py", "core.py", "utils.py", "__init__.py"],
  [("ReferenceFrame.transform_points/vectors/quaternions", "reference_frames.py"), ("_validate_input/_expand_singleton_axes", "reference_frames.py"), ("rotate_vectors", "utils.py"), ("_maybe_unpack_dataarray (axis defaults)", "core.py")],
  observe=["rbm.transform_points", "rbm.transform_vectors", "rbm.transform_quaternions", "ReferenceFrame.transform_*"]),
P("C03", "Timestamp matching: sampling, clipping, interpolation, event hold",
  "A transform over moving frames is reported at the timestamps of the array if one is given, else of the first continuous frame on the path, clipped to the interval in which the array and every continuous frame on the path are defined; if only discrete (event) frames move, at the sorted union of their timestamps, and if nothing moves there are no timestamps. At each reported timestamp a continuous frame or array contributes its value there (samples exactly, even next to missing samples, translations and vectors linearly between samples, rotations on the interpolating great arc or SQUAD curve, regardless of the signs chosen for the quaternions), a discrete frame contributes the last event at or before it (the first event before any), and a static frame or array its constant value. This holds alike for integer, float and datetime64 timestamps, and timestamps that decrease are rejected.",
  ["inputs", "configurations"], "all paths of up to 3 frames with each frame static/continuous/discrete, timestamp grids from an alphabet of overlapping, nested, touching, offset and single-sample grids, array grids likewise, timestamp dtypes, sign patterns of quaternion samples, both path directions",
  "the existing tests sample one resampling situation per kind (mostly identical or simply shifted grids, float or datetime only), never all pairs of grid relations, sign flips, or discrete and continuous frames mixed on up and down legs.",
  ["core.py", "reference_frames.py"],
  [("TransformMatcher.get_range/get_timestamps", "core.py"), ("TransformMatcher._transform_from_frame/_resample_array", "core.py")],
  [("frames, arrays", "participants of the match", "core.py")],
  ["rbm.lookup_transform(return_timestamps=True)", "rbm.transform_*(timestamps=..., return_timestamps=True)"]),
P("C04", "DataArray interface equals the numpy interface plus correct labels",
  "Transforming a DataArray gives exactly the values that the numpy interface gives for the same data, axes and timestamps, whatever the order of dimensions and whichever of dim/axis and timestamps (name, default or False) is used. The result has the input's dims, name and unrelated attributes, the time coordinate equals the timestamps of the result, other time-dependent coordinates follow it (numeric ones interpolated, others nearest), and the frame attributes name the new frame. The source frame may be taken from the attributes with the same result, and the input DataArray is left untouched.",
  ["inputs", "configurations"], "all dim orders of 1- to 3-dimensional DataArrays x dim/axis spelling x timestamps spelling x extra coordinates (numeric, string, 2-D, scalar, none) x outof explicit/from attrs x resampling or not x all transform functions",
  "tests use (time, cartesian_axis) order and at most one extra coordinate; dims in other orders and negative/zero axis spellings are not sampled.",
  ["core.py", "__init__.py"], [("_maybe_unpack_dataarray", "core.py"), ("_make_dataarray", "core.py"), ("_transform", "core.py")],
  observe=["rbm.transform_points/vectors/quaternions/angular_velocity/linear_velocity on DataArrays"]),
P("C05", "Registry and frame-tree behave like a name map over any history",
  "After any sequence of registering, updating, deregistering, clearing, constructing, releasing and looking up frames, a name resolves to exactly the frame most recently registered under it and not removed since, and every name lookup, transform and tree rendering agrees with that mapping and with the parent given at construction. Registering an existing name without update is rejected; with update it replaces the mapping and detaches only the frame replaced, and re-registering the same frame changes nothing. Deregistering or discarding one frame never removes or alters another.",
  ["histories"], "all operation sequences up to depth 4 (quick) / 5-6 (thorough) over three names and an alphabet of register/update/deregister/clear/construct/register-object/drop-reference/lookup operations, states canonicalised",
  "tests perform at most two registry operations per test from an empty registry.",
  ["reference_frames.py", "core.py"], [("_register/_deregister/clear_registry", "reference_frames.py"), ("ReferenceFrame.__del__/register/deregister", "reference_frames.py"), ("_resolve_rf", "core.py")],
  [("_registry", "name -> frame map", "reference_frames.py")], ["rbm.registry", "rbm.register_frame", "rbm.deregister_frame", "rbm.render_tree", "rbm.lookup_transform"]),
P("C06", "Rejected operations leave no trace",
  "An operation that raises an error (invalid shapes, unknown or duplicate names, missing timestamps, wrong types, unreachable frames) leaves the registry, every frame's parent, children and pose, and the arguments exactly as they were. In particular a frame whose construction or registration failed never appears in the tree of its intended parent.",
  ["histories", "fault_sequences"], "every invalid call from an alphabet of rejected operations, at every position of short histories of valid operations over all small registry states",
  "tests check that errors are raised (pytest.raises) and never look at the state left behind.",
  ["reference_frames.py", "core.py", "__init__.py"], [("ReferenceFrame.__init__ (parent set before validation)", "reference_frames.py"), ("register_frame", "reference_frames.py")],
  [("_registry, parent/children", "observable state", "reference_frames.py")], ["rbm.registry", "ReferenceFrame.children", "rbm.render_tree"]),
P("C07", "Velocity lookups report the relative motion of the frames",
  "For moving frames, the looked-up linear velocity, angular velocity and twist of a frame with respect to any reference frame equal the time derivative of that frame's relative pose, represented in the requested frame (for the top-level functions the reference frame unless one is requested), at the timestamps of the lookup. This holds for any position of the frames in the tree, constant offsets and orientations of the intermediate frames, timestamp unit and dtype, sign convention of the quaternion samples and estimation mode. Static pairs raise an error, or give zero velocity without timestamps when allowed.",
  ["inputs", "configurations"], "all placements of moving frame, reference and representation frame in small trees x constant-velocity and constant-rate motions along/about axes from an alphabet x timestamp dtype and spacing x mode x sign flips x static offsets x entry point",
  "tests check one sinusoidal motion on one tree and a CSV grid for one tree of frames.",
  ["reference_frames.py", "core.py", "__init__.py"], [("ReferenceFrame.lookup_twist/lookup_linear_velocity/lookup_angular_velocity", "reference_frames.py"), ("_estimate_linear_velocity/_estimate_angular_velocity", "core.py")],
  observe=["rbm.lookup_twist", "rbm.lookup_linear_velocity", "rbm.lookup_angular_velocity"]),
P("C08", "Velocity transforms obey the documented change-of-frame formulas",
  "Transforming an angular velocity to a new reference frame or moving frame adds the documented relative angular velocity, and transforming a linear velocity adds the relative linear velocity and the documented cross-product term, all represented in the target frame; transforming the representation frame only rotates. For static source-target pairs the result reduces to the corresponding rotation (plus lever arm for linear velocity), and transforming there and back restores the velocity. The result does not depend on whether data is passed as numpy array or DataArray, or frames by name or object.",
  ["inputs", "configurations"], "all what-options x tree placements of the frames x static/moving source and target with constant-rate motions x input velocity alphabet x timestamps or not x entry point",
  "tests compare one motion configuration per option against lookups.",
  ["reference_frames.py", "core.py", "__init__.py"], [("ReferenceFrame.transform_angular_velocity/transform_linear_velocity", "reference_frames.py"), ("_match_arrays", "reference_frames.py")],
  observe=["rbm.transform_angular_velocity", "rbm.transform_linear_velocity"]),
P("C09", "Quaternion utilities obey quaternion algebra in every layout",
  "Quaternion inverse and product satisfy the algebra of (not necessarily unit) quaternions, vector rotation equals the rotation of the normalised quaternion both for one quaternion, one-to-one and all-combinations use, the mean is the unit quaternion maximising the average squared alignment with the samples and ignores their signs, and interpolation passes through the samples and follows constant-rate rotations exactly. All of this holds for float and quaternion dtype and for any number of dimensions and any coordinate axis, reduction axis or interpolation axis (reduction axes counted in the input array), with the result laid out like the input. Inputs whose shapes do not fit are rejected.",
  ["inputs", "configurations"], "quaternion alphabet (units, half turns, generic, negated, scaled) in all products of up to three operands; arrays of 1 to 4 dimensions with all axis assignments; all reduction axes; all sign patterns; both dtypes",
  "tests use one or two shapes per function and unit quaternions; the mean is only tested on symmetric sets and interpolation on one series.",
  ["utils.py", "core.py"], [("qinv/qmul/qmean/qinterp/rotate_vectors", "utils.py"), ("_resolve_axis", "core.py")],
  observe=["rbm.qinv", "rbm.qmul", "rbm.qmean", "rbm.qinterp", "rbm.rotate_vectors"]),
P("C10", "Euler angles compose in the given order, in every spelling and layout",
  "A quaternion built from roll, pitch and yaw equals the product of the three axis rotations in the given order, for all six orders, for angles given as one array along any axis or as separate arguments, with omitted angles counting as zero. The result is a unit quaternion in the layout of the input, as float array or quaternion dtype. Inconsistent shapes, missing or conflicting arguments, and orders that are not a permutation of the three angles are rejected.",
  ["inputs", "configurations"], "all 6 orders and all order strings of length up to 4 over {r,p,y,x} x angle alphabet including multiples of a quarter turn x all subsets of arguments x array shapes/axes",
  "tests check single rotations and one composite.", ["utils.py"], [("from_euler_angles", "utils.py")], observe=["rbm.from_euler_angles"]),
P("C11", "Coordinate-system transforms are correct and mutually inverse",
  "Cartesian, polar and spherical transforms follow the documented (ISO 80000-2) definitions at every point including axes, poles, the origin and all quadrants, and each pair is mutually inverse on its range. The generic coordinate transform gives the same values for every array layout and for DataArrays, where it replaces the coordinate dimension and its labels, drops exactly the coordinates that used the old dimension, and updates the coordinate-system attribute. Unsupported conversions and wrong axis lengths are rejected.",
  ["inputs", "configurations"], "all points of a small lattice including zeros and all sign patterns x array shapes with all axes (positive and negative) x DataArray dim orders, labels, replace_dim and attribute combinations",
  "tests use one array per conversion and only the last axis.", ["coordinate_systems.py", "__init__.py", "core.py"], [("cartesian_to_polar etc.", "coordinate_systems.py"), ("transform_coordinates", "__init__.py"), ("_replace_dim", "core.py")],
  observe=["rbm.transform_coordinates", "rbm.cartesian_to_polar", "rbm.polar_to_cartesian", "rbm.cartesian_to_spherical", "rbm.spherical_to_cartesian"]),
P("C12", "Best-fit alignment is optimal and a proper rotation",
  "The best-fit rotation and transform are proper rigid motions that minimise the squared distance between the two point sets: no rigid motion does better, and exact correspondences (also planar, collinear, mirrored or noisy ones where the optimum is unique) recover the generating motion. Iterative closest point started close enough recovers the motion for permuted points and never returns a worse match than its initial guess. All of this is independent of array layout and of whether inputs are numpy arrays or DataArrays.",
  ["inputs", "configurations"], "all point sets from a small alphabet (generic, planar, mirrored, noisy) x rotation alphabet x translations x layouts/axes x container types; optimality checked against a dense finite rotation set plus a closed-form reference",
  "tests recover one motion from one data set each.", ["estimators.py"], [("best_fit_rotation/best_fit_transform/iterative_closest_point", "estimators.py"), ("_reshape_vectors", "estimators.py")],
  observe=["rbm.best_fit_rotation", "rbm.best_fit_transform", "rbm.iterative_closest_point"]),
P("C13", "Shortest-arc rotation maps one direction onto the other minimally",
  "For any two non-zero vectors the estimated rotation is a unit quaternion that rotates the direction of the first onto the direction of the second through the angle between them, also when they are parallel or exactly opposite. This holds per element for arrays of any layout and spatial axis, independent of vector lengths and dtype, and for DataArrays, whose spatial dimension becomes a quaternion dimension.",
  ["inputs", "configurations"], "all ordered pairs of vectors from a lattice (including opposite, parallel, scaled) x array layouts/axes x dtype x container",
  "the test checks one random pair of arrays.", ["estimators.py"], [("shortest_arc_rotation", "estimators.py")], observe=["rbm.shortest_arc_rotation"]),
P("C14", "Velocity estimators differentiate time series in every layout",
  "Estimating linear velocity differentiates positions and estimating angular velocity gives the body-frame angular rate of rotations (up to the error of numerical differentiation, so that constant velocities and rates are recovered), for any array layout, axis and time axis, timestamp dtype and irregular sampling, and regardless of quaternion signs. A missing (NaN) rotation sample makes only its own time step of the angular velocity NaN, outlier suppression only replaces the velocities next to a sample whose second difference exceeds the threshold (by interpolation from the others), and a low-pass cutoff leaves constant velocities unchanged. DataArray input gives the same values with correct dims, coordinates and labels.",
  ["inputs", "configurations"], "all axis/time_axis assignments of 2- and 3-dimensional arrays x timestamp dtype/spacing x motion alphabet x NaN positions x outlier positions x modes x containers",
  "tests check one motion in two layouts and do not assert outlier or NaN behaviour per sample.", ["estimators.py", "core.py"], [("estimate_linear_velocity/estimate_angular_velocity", "estimators.py"), ("_estimate_linear_velocity/_estimate_angular_velocity", "core.py")],
  observe=["rbm.estimate_linear_velocity", "rbm.estimate_angular_velocity"]),
P("C15", "Queries are pure: no call modifies its inputs, the frames or the registry",
  "No lookup, transform, estimation, conversion or plotting call changes any array, DataArray, Dataset or attribute dictionary passed to it, the pose, timestamps, parent or children of any frame, or the registry. Repeating a query gives the same result, in any interleaving with other queries. Modifying a returned array in place never changes a frame or a later query's result.",
  ["histories", "inputs"], "all ordered pairs (quick) and triples (thorough) of query operations from the full public alphabet on shared arguments, with mutation of each result in between",
  "tests use fresh inputs per test and do not compare inputs before and after.", ["core.py", "reference_frames.py", "__init__.py", "estimators.py", "utils.py", "accessors.py"], [("copies made by matcher/unpacking", "core.py"), ("attrs.copy()", "core.py")],
  [("frame arrays", "shared with query results", "reference_frames.py")], ["all public query functions"]),
P("C16", "ROS messages and TF export preserve frames, poses and stamps",
  "Every message made from a translation, rotation, velocity, vector, point or quaternion and unpacked again yields the same numbers, frame ids and time stamp, with the scalar-first to scalar-last reordering applied exactly once. A transformer built from a reference frame tree holds exactly one transform per non-root frame and sample (static or stamped) with the frame's pose with respect to its parent, keeps the whole recorded interval available, and answers transform queries (also of vectors, points, quaternions, poses) like the library's own lookup.",
  ["inputs", "configurations"], "all small trees with each frame static or moving x pose alphabet x query pairs and times x message constructors, against recording stand-ins for the ROS packages with a reference TF buffer",
  "all ROS tests are skipped without a ROS installation and otherwise use one fixed tree.", ["ros/msg.py", "ros/transformer.py"], [("make_*/unpack_*", "ros/msg.py"), ("Transformer", "ros/transformer.py")], observe=["ros.Transformer", "ros.msg"]),
P("C17", "Transform broadcaster publishes the right sample in the right order",
  "Publishing index i sends the transform (and pose and twist if requested) of sample i of the frame with respect to its base, for every valid index including 0 and defaulting to the current one, stamped with that sample's time; static frames send one unstamped static transform. Continuous playback publishes all samples cyclically in order, waiting the recorded interval between consecutive samples, until stopped or shut down. In subscription mode every incoming transform whose child frame is the subscribed one, and no other, triggers exactly one publication of the sample closest in time.",
  ["histories", "inputs"], "all operation sequences up to depth 4 over publish(i)/incoming message/spin steps/stop/shutdown on recording stand-ins x frame kinds x timestamp dtypes x publish options",
  "all ROS tests are skipped without a ROS installation; playback and subscription are not tested at all.", ["ros/transformer.py"], [("ReferenceFrameTransformBroadcaster.publish/handle_incoming_msg/_spin_blocking", "ros/transformer.py")],
  [("idx", "current sample", "ros/transformer.py"), ("stopped", "stop flag", "ros/transformer.py")], ["messages sent to the broadcaster and publishers", "sleep durations"]),
P("C18", "Spinning publishers stop exactly when told, under every interleaving",
  "For any interleaving of the calling thread and the publishing thread, a publisher that was told to stop (or whose node shut down) after spin() publishes finitely many further messages and its thread terminates; one that was not told to stop keeps publishing. spin() without blocking returns the running thread, and with blocking returns only after stopping. A publisher can be spun again after it has stopped, and messages are never lost, reordered or torn by the interleaving.",
  ["schedules"], "all interleavings of caller and publisher thread at every line of the publisher code and every ROS call, up to a preemption bound of 2 (quick) / 3-4 (thorough), for all short scripts of spin/stop/shutdown/publish",
  "no test spins a publisher; unit tests run one schedule.", ["ros/transformer.py", "ros/visualization.py"], [("spin/stop/_spin_blocking", "ros/transformer.py"), ("BaseMarkerPublisher.spin/stop/_spin_blocking", "ros/visualization.py")],
  [("stopped", "flag shared by both threads", "ros/transformer.py"), ("_thread", "publisher thread", "ros/transformer.py")], ["messages published", "thread termination"]),
P("C19", "Rosbag write/read round trip preserves every message",
  "Transforms written to a bag, from arrays or a Dataset and with numeric or datetime64 timestamps, are read back (as arrays, Dataset or exported netCDF file) with the same number, order, topic, frame ids, time stamps, positions and orientations; odometry messages additionally with their velocities. Only messages of the requested topic are read, header stamps take precedence over record times where present, and unsupported types, wrong shapes and use outside the context manager are rejected without writing anything. Exported and cached data agree with the direct read up to the documented storage resolution.",
  ["inputs", "histories"], "all interleavings of up to 3 writes over 2 topics, message types with and without header, sample counts 0-3, value alphabet, timestamp kinds, reading by all four routes, on an in-memory bag stand-in",
  "tests are skipped without a ROS installation and otherwise use one bag file.", ["ros/io.py", "ros/msg.py"], [("RosbagWriter.write_transform_stamped(_dataset)", "ros/io.py"), ("RosbagReader.load_messages/load_dataset/export", "ros/io.py")], observe=["bag contents", "returned arrays and datasets", "netCDF files"]),
P("C20", "Rosbag cache never serves incomplete or foreign data",
  "After an export or cached load is interrupted at any point (crash or write error), a later cached load returns the complete data of the topic or raises, and never returns truncated or stale partial data. Different topics never share a cache entry, a cached load never modifies the bag, and exporting replaces the target only by a complete file. Export to a given path (string or path object) writes exactly that file.",
  ["crash_points", "fault_sequences", "inputs"], "every file-system effect of an export/cached load as a crash point (including truncated file contents) and as an injected error, followed by recovery; all pairs of topic names from an alphabet; path types",
  "no test interrupts an export or uses two topics.", ["ros/io.py"], [("RosbagReader.load_dataset(cache=True)/export/_write_netcdf/_get_filename", "ros/io.py")],
  [("cache/<topic>.nc", "cache file", "ros/io.py")], ["cache folder contents", "returned dataset"]),
P("C21", "OptiTrack import recovers every body's pose and time",
  "For any export with any number of rigid bodies, rotation order, length unit, column order and interleaved marker columns, the import yields one entry per rigid body with its positions in metres, its orientation as the quaternion of its Euler angles in the declared order, and absolute timestamps equal to the capture start plus the recorded times. Markers are never reported as bodies. The numpy, pandas and xarray formats contain the same data, and unknown formats are rejected.",
  ["inputs", "configurations"], "generated files: all rotation orders x units x body/marker arrangements x column permutations x sample counts x value alphabet incl. missing samples x start times x formats",
  "one csv file is tested.", ["io.py", "utils.py"], [("load_optitrack", "io.py")], observe=["rbm.io.load_optitrack"]),
P("C22", "Plots show frames, points and vectors where they are",
  "A plotted reference frame consists of three arrows that start at the frame's origin and point along its axes with the given length, expressed in the world frame; plotted points, vectors and quaternions have exactly the given coordinates, bases and rotated axes. After every plotting call the axes have equal scale on all three dimensions and contain everything the axes contained before plus what was just plotted. Invalid shapes and moving frames are rejected.",
  ["histories", "inputs"], "all sequences of up to 3 plotting calls on one axes over an alphabet of frames/points/vectors/quaternions in different positions x base/world options",
  "tests only check that plotting calls run.", ["plotting.py", "plot.py"], [("plot_reference_frame/_add_frame/_set_axes_equal/plot_points/plot_vectors/plot_quaternions", "plotting.py")], observe=["matplotlib artists and axis limits"]),
P("C23", "All entry points to the same query agree",
  "For the same frames and data, module functions and frame methods, frames given by name or object, tuple, timestamped and Dataset/DataArray results, and the deprecated alias all return the same numbers; Dataset/DataArray results carry the timestamps, axis labels and the attributes that name the frames involved. A frame built from a Dataset, a translation or rotation DataArray or a rotation matrix is equivalent to one built from the corresponding arrays with the same options.",
  ["inputs", "configurations"], "all query functions x result format x naming of frames x static/moving/discrete frames; all alternative constructors x option combinations",
  "tests check individual pairs on one tree.", ["__init__.py", "reference_frames.py", "core.py"], [("lookup_*", "__init__.py"), ("from_dataset/from_translation_dataarray/from_rotation_dataarray/from_rotation_matrix", "reference_frames.py"), ("_make_transform_or_pose_dataset/_make_twist_dataset/_make_velocity_dataarray", "core.py")],
  observe=["rbm.lookup_*", "ReferenceFrame.from_*"]),
P("C24", "DataArray accessor interpolates and inverts quaternions with labels",
  "The accessor's quaternion interpolation and inverse give the values of the array functions for every dimension order, interpolation dimension and quaternion dimension name. Interpolated results carry the new coordinate, numeric coordinates along that dimension interpolated and others nearest, all remaining coordinates, name and attributes unchanged, and the input is not modified. Unknown dimensions and unsupported coordinates are rejected.",
  ["inputs", "configurations"], "all dim orders of 2- and 3-dimensional DataArrays x extra coordinate kinds x target coordinates (array, DataArray, list, datetime) x call spelling",
  "tests use one two-dimensional array with time first.", ["accessors.py", "utils.py"], [("DataArrayAccessor.qinterp/qinv", "accessors.py")], observe=["DataArray.rbm.qinterp", "DataArray.rbm.qinv"]),
P("C25", "Playback widget stays in range and publishes what it shows",
  "Whatever sequence of forward, backward, slider and play events occurs, the playback index stays within the recorded range, forward and backward move by the skip amount (or the step) limited only by the ends of the range, and every change of the displayed index publishes exactly that message. The play timer advances by the step at an interval that matches the mean recorded interval divided by the speed.",
  ["histories", "inputs"], "all event sequences up to depth 5 x step/skip/speed settings x lengths x timestamps given or taken from the publisher, on widget stand-ins",
  "not tested at all (needs IPython and ROS).", ["ros/utils.py"], [("play_publisher", "ros/utils.py")], observe=["publisher.publish calls", "slider value"]),
P("C26", "Marker messages carry the requested geometry and are published on change",
  "A marker has exactly the requested type, frame, scale, colour, position and orientation. A frame's path marker contains the frame's translations with respect to the base in order, sub-sampled evenly to at most the requested number of points and starting with the first sample, for any number of samples. A marker publisher sends the marker when it is first published and whenever it has changed since the last publication, and otherwise sends nothing.",
  ["inputs", "histories"], "all marker parameter combinations from an alphabet; all pairs of sample count 1-12 and max_points 1-13; all publish/modify sequences up to depth 5",
  "ROS tests are skipped and sample a single marker.", ["ros/visualization.py"], [("get_marker/hex_to_rgba", "ros/visualization.py"), ("BaseMarkerPublisher.publish", "ros/visualization.py"), ("ReferenceFrameMarkerPublisher", "ros/visualization.py")],
  [("last_message", "last serialised marker", "ros/visualization.py")], ["published markers"]),
P("C27", "Node initialisation starts, reuses and shuts down the right ROS master",
  "Initialising a node registers it exactly once and only when a master is running or has just been started; without a master and without permission to start one it raises and starts nothing. A master started this way is returned, can be shut down, and is shut down at interpreter exit, whereas a foreign master is never shut down. Failures while contacting or starting the master propagate and leave no node registered.",
  ["fault_sequences", "histories"], "all combinations of master state, start permission and injected failures at each ROS call, and sequences of two initialisations with shutdowns in between",
  "one test is skipped without ROS.", ["ros/utils.py"], [("init_node", "ros/utils.py")], observe=["roslaunch/rospy calls", "returned object", "atexit registrations"]),
P("C28", "Downloaded example data is authentic",
  "Accessing an example data set returns the path of a local file whose content matches the published checksum, downloading it if necessary, and unknown names are rejected.",
  ["fault_sequences"], "all data set names x download outcomes (complete, truncated, altered, failing)",
  "needs the network and the remote files; the tests that touch it fail offline.", ["utils.py"], [("ExampleDataStore", "utils.py")], observe=["rbm.example_data"]),
]
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
import re
for p in props:
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
    if n > 3: print(p["id"], n, "sentences")
