From ad0a91259d4f98fca380f861f67a500f51ba0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 01/67] fix: honour axis=0 instead of treating it as the last
 axis

An axis argument of 0 was falsy and silently replaced by -1; timestamps=False
was only understood for DataArrays.
---
 rigid_body_motion/core.py       | 6 ++++--
 rigid_body_motion/estimators.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 8d0abfe..62978d9 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -395,9 +395,11 @@ def _maybe_unpack_dataarray(
     if not is_dataarray(arr):
         if dim is not None:
             raise ValueError("dim argument specified without DataArray input")
-        axis = axis or -1
+        axis = -1 if axis is None else axis
         time_axis = time_axis or 0
         time_dim = None
+        if timestamps is False:
+            timestamps = None
         coords = None
         dims = None
         name = None
@@ -410,7 +412,7 @@ def _maybe_unpack_dataarray(
         elif dim is not None:
             axis = arr.dims.index(dim)
         else:
-            axis = axis or -1
+            axis = -1 if axis is None else axis
             dim = str(arr.dims[axis])
         if isinstance(timestamps, str):
             # TODO convert datetimeindex?
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index c886d00..2fb18a3 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -20,7 +20,7 @@ def _reshape_vectors(v1, v2, axis, dim, same_shape=True):
     v1, axis, _, _, _, _, coords, *_ = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None)
+    v2, *_ = _maybe_unpack_dataarray(v2, None, axis, None, False)
 
     if v1.shape[axis] != 3 or v2.shape[axis] != 3:
         raise ValueError(
@@ -262,7 +262,7 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
         The quaternion representation of the shortest-arc rotation.
     """
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
-        v1, dim, axis, None
+        v1, dim, axis, None, False
     )
     v1 = np.asarray(v1)
     v2 = np.asarray(v2)
-- 
2.43.0


From b7c1aad5541c73cdfc4a1b124b04de30bbd959f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/67] fix: one-to-one rotate_vectors with non-unit
 quaternions

The rotated vector must be divided by the squared norm of the quaternion.
---
 rigid_body_motion/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1cd7a42..aa063cd 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -256,7 +256,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     q = as_float_array(q)
     r = q[..., 1:]
     s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.linalg.norm(q, axis=-1, keepdims=True), -1, axis)
+    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From a9a805a52456fab5537958d0f6fdca5f01ef5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 03/67] fix: one-to-one rotate_vectors with spatial axis before
 other axes

np.cross moves the vector axis and keeps the order of the others, whereas the
scalar part was swapped with the last axis.
---
 rigid_body_motion/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index aa063cd..e512426 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -255,8 +255,8 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     # compute rotation
     q = as_float_array(q)
     r = q[..., 1:]
-    s = np.swapaxes(q[..., :1], -1, axis)
-    m = np.swapaxes(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
+    s = np.moveaxis(q[..., :1], -1, axis)
+    m = np.moveaxis(np.sum(q**2, axis=-1, keepdims=True), -1, axis)
     rxv = np.cross(r, v, axisb=axis, axisc=axis)
     vr = v + 2 * np.cross(r, s * v + rxv, axisb=axis, axisc=axis) / m
 
-- 
2.43.0


From cf4e2251c9bb7438a5c758c8d3c7682e373ec7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 04/67] fix: array transforms with spatial axis other than the
 last or time_axis given

---
 rigid_body_motion/reference_frames.py | 32 +++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6306901..18a790f 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -285,11 +285,27 @@ class ReferenceFrame(NodeMixin):
                     f"Axis {time_axis} of the array must have the same length "
                     f"as the timestamps"
                 )
+            if axis % arr.ndim == time_axis % arr.ndim:
+                raise ValueError(
+                    "Spatial and time dimension refer to the same array axis"
+                )
             # TODO this should be done somewhere else
             arr = np.swapaxes(arr, 0, time_axis)
 
         return arr, timestamps
 
+    @staticmethod
+    def _get_matched_axis(axis, time_axis, timestamps, ndim_in, ndim_out):
+        """Get the spatial axis of an array after matching timestamps."""
+        if ndim_out != ndim_in:
+            # single vector was repeated for each timestamp
+            return -1
+        elif timestamps is not None and axis % ndim_in == 0:
+            # spatial axis was swapped with time axis
+            return time_axis
+        else:
+            return axis
+
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
         """Expand singleton axes for correct broadcasting with array."""
@@ -634,13 +650,15 @@ class ReferenceFrame(NodeMixin):
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
+        ndim = arr.ndim
         arr, _ = matcher.get_arrays(ts)
+        axis = self._get_matched_axis(axis, time_axis, arr_ts, ndim, arr.ndim)
 
         r = self._expand_singleton_axes(r, arr.ndim)
         arr = rotate_vectors(r, arr, axis=axis)
 
         # undo time axis swap
-        if time_axis is not None:
+        if arr_ts is not None:
             arr = np.swapaxes(arr, 0, time_axis)
 
         if not return_timestamps:
@@ -695,15 +713,19 @@ class ReferenceFrame(NodeMixin):
         arr, arr_ts = self._validate_input(arr, axis, 3, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
+        ndim = arr.ndim
         arr, _ = matcher.get_arrays(ts)
+        axis = self._get_matched_axis(axis, time_axis, arr_ts, ndim, arr.ndim)
 
         t = self._expand_singleton_axes(t, arr.ndim)
         r = self._expand_singleton_axes(r, arr.ndim)
         arr = rotate_vectors(r, arr, axis=axis)
-        arr = arr + np.array(t)
+        # align translation with spatial axis
+        t = np.reshape(t, (1,) * (arr.ndim - t.ndim) + t.shape)
+        arr = arr + np.moveaxis(t, -1, axis)
 
         # undo time axis swap
-        if time_axis is not None:
+        if arr_ts is not None:
             arr = np.swapaxes(arr, 0, time_axis)
 
         if not return_timestamps:
@@ -759,7 +781,9 @@ class ReferenceFrame(NodeMixin):
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
         matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
         t, r, ts = matcher.get_transformation()
+        ndim = arr.ndim
         arr, _ = matcher.get_arrays(ts)
+        axis = self._get_matched_axis(axis, time_axis, arr_ts, ndim, arr.ndim)
 
         r = self._expand_singleton_axes(r, arr.ndim)
         arr = np.swapaxes(arr, axis, -1)
@@ -767,7 +791,7 @@ class ReferenceFrame(NodeMixin):
         arr = np.swapaxes(as_float_array(arr), -1, axis)
 
         # undo time axis swap
-        if time_axis is not None:
+        if arr_ts is not None:
             arr = np.swapaxes(arr, 0, time_axis)
 
         if not return_timestamps:
-- 
2.43.0


From 8c10a465037ac661ba135ee61ee780f493cb6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 05/67] fix: reject arrays without timestamps for moving frames
 instead of tiling them

---
 rigid_body_motion/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 62978d9..6f98309 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -86,6 +86,11 @@ class TransformMatcher:
         if array.timestamps is None:
             if timestamps is None:
                 return array.data
+            elif array.data.ndim > 1 and array.data.shape[:-1] != (1,):
+                raise ValueError(
+                    "Cannot match array without timestamps to timestamped "
+                    "transform unless it is a single vector"
+                )
             else:
                 return np.tile(array.data, (len(timestamps), 1))
         else:
-- 
2.43.0


From 2f3157d1cbbe5e1edbcd13e8a31254f9f2418f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 06/67] fix: interpolate arrays as quaternions only in
 transform_quaternions, along the given axis

---
 rigid_body_motion/core.py             | 21 +++++++++++++--------
 rigid_body_motion/reference_frames.py |  5 ++++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 6f98309..84b4d5c 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -19,7 +19,7 @@ Frame = namedtuple(
     "Frame",
     ("translation", "rotation", "timestamps", "discrete", "inverse"),
 )
-Array = namedtuple("Array", ("data", "timestamps"))
+Array = namedtuple("Array", ("data", "timestamps", "qaxis"))
 
 
 class TransformMatcher:
@@ -94,15 +94,16 @@ class TransformMatcher:
             else:
                 return np.tile(array.data, (len(timestamps), 1))
         else:
-            # TODO better way to check if quaternion
-            if array.data.shape[-1] == 4:
-                return as_float_array(
+            if array.qaxis is not None:
+                q = np.swapaxes(array.data, array.qaxis, -1)
+                q = as_float_array(
                     squad(
-                        as_quat_array(array.data),
+                        as_quat_array(q),
                         array.timestamps.astype(float),
                         timestamps.astype(float),
                     )
-                )
+                ).reshape((len(timestamps),) + q.shape[1:])
+                return np.swapaxes(q, -1, array.qaxis)
             else:
                 # TODO method + optional scipy dependency?
                 return interp1d(
@@ -131,7 +132,7 @@ class TransformMatcher:
             )
         )
 
-    def add_array(self, array, timestamps=None):
+    def add_array(self, array, timestamps=None, qaxis=None):
         """Add an array to the matcher.
 
         Parameters
@@ -141,9 +142,13 @@ class TransformMatcher:
 
         timestamps: array_like, optional
             If provided, the timestamps of the array.
+
+        qaxis: int, optional
+            If the array represents quaternions, the axis representing the
+            coordinates of the quaternions.
         """
         self._check_timestamps(timestamps, array.shape)
-        self.arrays.append(Array(array, timestamps))
+        self.arrays.append(Array(array, timestamps, qaxis))
 
     def get_range(self):
         """Get the range for which the transformation is defined.
diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 18a790f..81553ea 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -779,7 +779,10 @@ class ReferenceFrame(NodeMixin):
             The timestamps after the transformation.
         """
         arr, arr_ts = self._validate_input(arr, axis, 4, timestamps, time_axis)
-        matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts)])
+        qaxis = self._get_matched_axis(
+            axis, time_axis, arr_ts, arr.ndim, arr.ndim
+        )
+        matcher = self._get_matcher(to_frame, arrays=[(arr, arr_ts, qaxis)])
         t, r, ts = matcher.get_transformation()
         ndim = arr.ndim
         arr, _ = matcher.get_arrays(ts)
-- 
2.43.0


From 7896d84f4879e2819f11c24cd35cc20041378ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 07/67] fix: rotation interpolation depends on the signs of the
 quaternions

---
 rigid_body_motion/core.py  | 2 ++
 rigid_body_motion/utils.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 84b4d5c..2cc91f3 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -72,6 +72,7 @@ class TransformMatcher:
                     as_quat_array(frame.rotation),
                     frame.timestamps.astype(float),
                     timestamps.astype(float),
+                    unflip_input_rotors=True,
                 )
             )
 
@@ -101,6 +102,7 @@ class TransformMatcher:
                         as_quat_array(q),
                         array.timestamps.astype(float),
                         timestamps.astype(float),
+                        unflip_input_rotors=True,
                     )
                 ).reshape((len(timestamps),) + q.shape[1:])
                 return np.swapaxes(q, -1, array.qaxis)
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index e512426..3b9f614 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -180,7 +180,7 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
 
     q = np.swapaxes(q, axis, 0)
     try:
-        qi = squad(q, t_in, t_out)
+        qi = squad(q, t_in, t_out, unflip_input_rotors=True)
     except ValueError:
         raise RuntimeError(
             "Error using SQUAD with multi-dimensional array, please upgrade "
-- 
2.43.0


From 4535f38a4f3d2071ac703dff5fa3374956e2adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 08/67] fix: frames and arrays with a single timestamp

---
 rigid_body_motion/core.py | 48 ++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 2cc91f3..0b8d2f5 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -22,6 +22,24 @@ Frame = namedtuple(
 Array = namedtuple("Array", ("data", "timestamps", "qaxis"))
 
 
+def _interpolate(arr, t_in, t_out, rotation=False):
+    """Interpolate an array or an array of rotations along the first axis."""
+    if len(t_in) == 1:
+        # nothing to interpolate
+        return np.repeat(arr, len(t_out), axis=0).astype(float)
+
+    t_in = t_in.astype(float)
+    t_out = t_out.astype(float)
+
+    if rotation:
+        return as_float_array(
+            squad(as_quat_array(arr), t_in, t_out, unflip_input_rotors=True)
+        ).reshape((len(t_out),) + arr.shape[1:])
+    else:
+        # TODO method + optional scipy dependency?
+        return interp1d(t_in, arr, axis=0)(t_out)
+
+
 class TransformMatcher:
     """Matcher for timestamps from reference frames and arrays."""
 
@@ -63,17 +81,11 @@ class TransformMatcher:
             for r, ts in zip(frame.rotation, frame.timestamps):
                 rotation[timestamps >= ts, :] = r
         else:
-            # TODO method + optional scipy dependency?
-            translation = interp1d(
-                frame.timestamps.astype(float), frame.translation, axis=0
-            )(timestamps.astype(float))
-            rotation = as_float_array(
-                squad(
-                    as_quat_array(frame.rotation),
-                    frame.timestamps.astype(float),
-                    timestamps.astype(float),
-                    unflip_input_rotors=True,
-                )
+            translation = _interpolate(
+                frame.translation, frame.timestamps, timestamps
+            )
+            rotation = _interpolate(
+                frame.rotation, frame.timestamps, timestamps, rotation=True
             )
 
         return translation, rotation
@@ -97,20 +109,10 @@ class TransformMatcher:
         else:
             if array.qaxis is not None:
                 q = np.swapaxes(array.data, array.qaxis, -1)
-                q = as_float_array(
-                    squad(
-                        as_quat_array(q),
-                        array.timestamps.astype(float),
-                        timestamps.astype(float),
-                        unflip_input_rotors=True,
-                    )
-                ).reshape((len(timestamps),) + q.shape[1:])
+                q = _interpolate(q, array.timestamps, timestamps, True)
                 return np.swapaxes(q, -1, array.qaxis)
             else:
-                # TODO method + optional scipy dependency?
-                return interp1d(
-                    array.timestamps.astype(float), array.data, axis=0
-                )(timestamps.astype(float))
+                return _interpolate(array.data, array.timestamps, timestamps)
 
     def add_reference_frame(self, frame, inverse=False):
         """Add a reference frame to the matcher.
-- 
2.43.0


From 2cac0346b26d03686e12fdf523c41a5b9f8236f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 09/67] fix: datetime64 timestamps with units other than
 nanoseconds

---
 rigid_body_motion/core.py  | 16 ++++++++++++----
 rigid_body_motion/utils.py |  6 +++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 0b8d2f5..660756e 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -22,14 +22,22 @@ Frame = namedtuple(
 Array = namedtuple("Array", ("data", "timestamps", "qaxis"))
 
 
+def _timestamps_to_float(timestamps):
+    """Convert timestamps to float, datetimes of any unit to nanoseconds."""
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        timestamps = timestamps.astype("datetime64[ns]")
+
+    return timestamps.astype(float)
+
+
 def _interpolate(arr, t_in, t_out, rotation=False):
     """Interpolate an array or an array of rotations along the first axis."""
     if len(t_in) == 1:
         # nothing to interpolate
         return np.repeat(arr, len(t_out), axis=0).astype(float)
 
-    t_in = t_in.astype(float)
-    t_out = t_out.astype(float)
+    t_in = _timestamps_to_float(t_in)
+    t_out = _timestamps_to_float(t_out)
 
     if rotation:
         return as_float_array(
@@ -752,7 +760,7 @@ def _estimate_angular_velocity(
 ):
     """Estimate angular velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _timestamps_to_float(timestamps) / 1e9
 
     axis = axis % rotation.ndim
     time_axis = time_axis % rotation.ndim
@@ -815,7 +823,7 @@ def _estimate_linear_velocity(
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
-        timestamps = timestamps.astype(float) / 1e9
+        timestamps = _timestamps_to_float(timestamps) / 1e9
 
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 3b9f614..960e48d 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -14,7 +14,7 @@ from quaternion import (
 from quaternion import rotate_vectors as quat_rv
 from quaternion import squad
 
-from rigid_body_motion.core import _resolve_axis
+from rigid_body_motion.core import _resolve_axis, _timestamps_to_float
 
 
 def qinv(q, qaxis=-1):
@@ -164,8 +164,8 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
     """
     # TODO xarray support
     axis = axis % q.ndim
-    t_in = np.array(t_in).astype(float)
-    t_out = np.array(t_out).astype(float)
+    t_in = _timestamps_to_float(np.array(t_in))
+    t_out = _timestamps_to_float(np.array(t_out))
 
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
-- 
2.43.0


From 584df03d760a3610022d1ae573a75959ba327abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 10/67] fix: velocity transforms of arrays that are not (time,
 space)

---
 rigid_body_motion/reference_frames.py | 29 ++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 81553ea..fd8ba11 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -306,6 +306,17 @@ class ReferenceFrame(NodeMixin):
         else:
             return axis
 
+    @staticmethod
+    def _get_layout(axis, time_axis, timestamps, ndim_in, ndim_out):
+        """Get arguments for moving time axis first and spatial axis last."""
+        if ndim_out != ndim_in:
+            # single vector was repeated for each timestamp
+            return (), ()
+        elif timestamps is None:
+            return (axis,), (-1,)
+        else:
+            return (time_axis, axis), (0, -1)
+
     @classmethod
     def _expand_singleton_axes(cls, t_or_r, ndim):
         """Expand singleton axes for correct broadcasting with array."""
@@ -898,6 +909,7 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        ndim = np.ndim(arr)
         arr, ts = self.transform_vectors(
             arr,
             to_frame,
@@ -906,11 +918,13 @@ class ReferenceFrame(NodeMixin):
             timestamps=timestamps,
             return_timestamps=True,
         )
-
+        layout = self._get_layout(axis, time_axis, ts, ndim, arr.ndim)
         arr, angular, ts_out = self._match_arrays(
-            [(arr, ts), (angular, angular_ts)]
+            [(np.moveaxis(arr, *layout), ts), (angular, angular_ts)]
         )
-        arr += angular
+        arr = arr + self._expand_singleton_axes(angular, arr.ndim)
+        if arr.ndim == ndim:
+            arr = np.moveaxis(arr, *layout[::-1])
 
         if return_timestamps:
             return arr, ts_out
@@ -1042,6 +1056,7 @@ class ReferenceFrame(NodeMixin):
                 f"'representation_frame', got {what}"
             )
 
+        ndim = np.ndim(arr)
         arr, ts = self.transform_vectors(
             arr,
             to_frame,
@@ -1050,6 +1065,7 @@ class ReferenceFrame(NodeMixin):
             timestamps=timestamps,
             return_timestamps=True,
         )
+        layout = self._get_layout(axis, time_axis, ts, ndim, arr.ndim)
         translation, translation_ts = self.transform_vectors(
             translation,
             to_frame,
@@ -1059,13 +1075,16 @@ class ReferenceFrame(NodeMixin):
 
         arr, linear, angular, translation, ts_out = self._match_arrays(
             [
-                (arr, ts),
+                (np.moveaxis(arr, *layout), ts),
                 (linear, linear_ts),
                 (angular, angular_ts),
                 (translation, translation_ts),
             ]
         )
-        arr = arr + linear + np.cross(angular, translation)
+        velocity = linear + np.cross(angular, translation)
+        arr = arr + self._expand_singleton_axes(velocity, arr.ndim)
+        if arr.ndim == ndim:
+            arr = np.moveaxis(arr, *layout[::-1])
 
         if return_timestamps:
             return arr, ts_out
-- 
2.43.0


From 4ffab101a23ad4f7c9540ff508203f1050e2b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 11/67] fix: registering the same frame again with update=True
 detaches it from its parent

---
 rigid_body_motion/reference_frames.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index fd8ba11..7d3227a 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -22,7 +22,8 @@ def _register(rf, update=False):
     if rf.name in _registry:
         if update:
             # TODO keep children?
-            _registry[rf.name].parent = None
+            if _registry[rf.name] is not rf:
+                _registry[rf.name].parent = None
         else:
             raise ValueError(
                 f"Reference frame with name {rf.name} is already registered. "
-- 
2.43.0


From 12c5ef22dc139e38a52b9e5a39716e3e4f78ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 12/67] fix: failed construction or registration leaves a ghost
 child in the frame tree

---
 rigid_body_motion/reference_frames.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 7d3227a..3417ec8 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -113,7 +113,11 @@ def register_frame(
         inverse=inverse,
         discrete=discrete,
     )
-    _register(rf, update=update)
+    try:
+        _register(rf, update=update)
+    except ValueError:
+        rf.parent = None
+        raise
 
 
 def deregister_frame(name):
@@ -185,14 +189,13 @@ class ReferenceFrame(NodeMixin):
         self.name = name
 
         if parent is not None:
-            self.parent = _resolve_rf(parent)
+            parent = _resolve_rf(parent)
             (
                 self.translation,
                 self.rotation,
                 self.timestamps,
             ) = self._init_arrays(translation, rotation, timestamps, inverse)
         else:
-            self.parent = None
             self._verify_root(translation, rotation, timestamps)
             self.translation, self.rotation, self.timestamps = None, None, None
 
@@ -201,6 +204,9 @@ class ReferenceFrame(NodeMixin):
         else:
             self.discrete = discrete
 
+        # only attach to the tree once everything has been validated
+        self.parent = parent
+
     def __del__(self):
         """Destructor."""
         if self.name in _registry and _registry[self.name] is self:
-- 
2.43.0


From ed46d2539f4f122ee8abb2ff23956b1ca40a746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 13/67] fix: ReferenceFrame.deregister removes another frame
 with the same name

---
 rigid_body_motion/reference_frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 3417ec8..bdd33af 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -1386,4 +1386,8 @@ class ReferenceFrame(NodeMixin):
 
     def deregister(self):
         """Remove this frame from the registry."""
+        if _registry.get(self.name, self) is not self:
+            raise ValueError(
+                f"Another reference frame with name {self.name} is registered"
+            )
         _deregister(self.name)
-- 
2.43.0


From a1eaee18293c301ce6f1590686ac18baa1177b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 14/67] fix: ghost child after registration with an invalid
 name

---
 rigid_body_motion/reference_frames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index bdd33af..6fa7246 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -115,7 +115,7 @@ def register_frame(
     )
     try:
         _register(rf, update=update)
-    except ValueError:
+    except Exception:
         rf.parent = None
         raise
 
-- 
2.43.0


From ee10607c653414057242e14b5be9dec369b1d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 15/67] fix: angular velocity depends on the signs of the
 quaternions

---
 rigid_body_motion/core.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 660756e..c8090c9 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -11,6 +11,7 @@ from quaternion import (
     derivative,
     quaternion,
     squad,
+    unflip_rotors,
 )
 from scipy.interpolate import interp1d
 from scipy.signal import butter, filtfilt
@@ -781,14 +782,18 @@ def _estimate_angular_velocity(
         valid_idx = [slice(None)] * r.ndim
         valid_idx[time_axis] = ~nan_idx
         valid_idx = tuple(valid_idx)
+        q = unflip_rotors(as_quat_array(r[valid_idx]), axis=time_axis)
         dq = as_quat_array(
-            derivative(r[valid_idx], timestamps[~nan_idx], axis=time_axis)
+            derivative(
+                as_float_array(q), timestamps[~nan_idx], axis=time_axis
+            )
         )
-        q = as_quat_array(r[valid_idx])
         angular = np.nan * np.ones_like(r[..., :-1])
         angular[valid_idx] = as_float_array(2 * q.conjugate() * dq)[..., 1:]
     elif mode == "rotation_vector":
-        rv = as_rotation_vector(as_quat_array(r))
+        rv = as_rotation_vector(
+            unflip_rotors(as_quat_array(r), axis=time_axis)
+        )
         angular = np.gradient(rv, timestamps, axis=time_axis)
     else:
         raise ValueError(
@@ -797,7 +802,13 @@ def _estimate_angular_velocity(
 
     if outlier_thresh is not None:
         dr = np.linalg.norm(
-            np.diff(as_rotation_vector(as_quat_array(r)), n=2, axis=time_axis),
+            np.diff(
+                as_rotation_vector(
+                    unflip_rotors(as_quat_array(r), axis=time_axis)
+                ),
+                n=2,
+                axis=time_axis,
+            ),
             axis=-1,
         )
         dr = np.hstack((dr, 0.0, 0.0)) + np.hstack((0.0, dr, 0.0))
-- 
2.43.0


From fc59bd58882526e1a9e0aa78b36c91a1fa96c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 16/67] fix: qmean along a single axis of multi-dimensional
 arrays

The eigenvectors were not selected by their own eigenvalue and quaternion
axes other than the last were not restored correctly.
---
 rigid_body_motion/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 960e48d..e12286c 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -108,7 +108,11 @@ def qmean(q, axis=None, qaxis=-1):
     """
     # TODO xarray support
     if q.dtype != quaternion:
-        q = np.swapaxes(q, qaxis, -1)
+        qaxis = qaxis % q.ndim
+        q = np.moveaxis(q, qaxis, -1)
+        # axes after the quaternion axis have been moved by one
+        if axis is not None:
+            axis = tuple(a - (a > qaxis) for a in np.atleast_1d(axis))
         was_quaternion = False
     else:
         q = as_float_array(q)
@@ -121,17 +125,14 @@ def qmean(q, axis=None, qaxis=-1):
     qt = np.swapaxes(q, -2, -1)
     A = np.mean(q * qt, axis=axis)
 
-    # compute largest eigenvector of A
-    l, v = np.linalg.eig(A)
-    idx = np.unravel_index(l.argsort()[..., ::-1], l.shape) + (0,)
-    v = v[idx]
-
-    qm = np.real(v)
+    # compute eigenvector of A with largest eigenvalue
+    _, v = np.linalg.eigh(A)
+    qm = v[..., -1]
 
     if was_quaternion:
         return as_quat_array(qm)
     else:
-        return np.swapaxes(qm, -1, qaxis)
+        return np.moveaxis(qm, -1, qaxis - sum(a < qaxis for a in axis))
 
 
 def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
-- 
2.43.0


From e95858181d02f4c4fe96fe484b2ae2bba15de36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 17/67] fix: qinterp with a single sample

---
 rigid_body_motion/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index e12286c..18a1227 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -181,7 +181,11 @@ def qinterp(q, t_in, t_out, axis=0, qaxis=-1):
 
     q = np.swapaxes(q, axis, 0)
     try:
-        qi = squad(q, t_in, t_out, unflip_input_rotors=True)
+        if len(t_in) == 1:
+            # nothing to interpolate
+            qi = np.repeat(q, len(t_out), axis=0)
+        else:
+            qi = squad(q, t_in, t_out, unflip_input_rotors=True)
     except ValueError:
         raise RuntimeError(
             "Error using SQUAD with multi-dimensional array, please upgrade "
-- 
2.43.0


From afbbcea405d499381534a951037e291ca323a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:03 +0000
Subject: [PATCH 18/67] fix: reject Euler angle orders that are not a
 permutation

---
 rigid_body_motion/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 18a1227..06c3201 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -365,15 +365,14 @@ def from_euler_angles(
         )
 
     # rearrange rotors according to order
-    rotors = [None] * 3
-    try:
-        rotors[order.index("r")] = roll
-        rotors[order.index("p")] = pitch
-        rotors[order.index("y")] = yaw
-    except (ValueError, IndexError):
+    if sorted(order) != ["p", "r", "y"]:
         raise ValueError(
             f"order must be a permutation of 'r', 'p' and 'y', got {order}"
         )
+    rotors = [None] * 3
+    rotors[order.index("r")] = roll
+    rotors[order.index("p")] = pitch
+    rotors[order.index("y")] = yaw
 
     # chain rotors
     q = quaternion(1, 0, 0, 0)
-- 
2.43.0


From 01a0e2948236fcf2654c32bca70d29786ba40246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 19/67] fix: from_euler_angles layout of quaternion results and
 length of rpy axis

---
 rigid_body_motion/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 06c3201..1b99cdc 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -318,7 +318,12 @@ def from_euler_angles(
             raise ValueError(
                 "Cannot specify roll, pitch or yaw when rpy is provided"
             )
-        rpy = np.swapaxes(np.asarray(rpy), axis, -1)
+        rpy = np.moveaxis(np.asarray(rpy), axis, -1)
+        if rpy.shape[-1] != 3:
+            raise ValueError(
+                f"Expected axis {axis} of rpy to have length 3, got "
+                f"{rpy.shape[-1]}"
+            )
         roll = rpy[..., 0]
         pitch = rpy[..., 1]
         yaw = rpy[..., 2]
@@ -383,7 +388,7 @@ def from_euler_angles(
     if return_quaternion:
         return q
     else:
-        return np.swapaxes(as_float_array(q), -1, axis)
+        return np.moveaxis(as_float_array(q), -1, axis)
 
 
 def is_dataarray(obj, require_attrs=None):
-- 
2.43.0


From 4fdd64f88cefd7e2a7cc69ab81353cb27c2dadd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 20/67] fix: qmean accepts arrays whose quaternion axis does
 not have length 4

---
 rigid_body_motion/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 1b99cdc..06fc847 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -109,6 +109,11 @@ def qmean(q, axis=None, qaxis=-1):
     # TODO xarray support
     if q.dtype != quaternion:
         qaxis = qaxis % q.ndim
+        if q.shape[qaxis] != 4:
+            raise ValueError(
+                f"Expected axis {qaxis} of q to have length 4, got "
+                f"{q.shape[qaxis]}"
+            )
         q = np.moveaxis(q, qaxis, -1)
         # axes after the quaternion axis have been moved by one
         if axis is not None:
-- 
2.43.0


From dff4b9b66735ab029c960df824c22fd7bae93aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 21/67] fix: rotate_vectors with quaternion axis before other
 axes

---
 rigid_body_motion/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/utils.py b/rigid_body_motion/utils.py
index 06fc847..3339232 100644
--- a/rigid_body_motion/utils.py
+++ b/rigid_body_motion/utils.py
@@ -241,7 +241,7 @@ def rotate_vectors(q, v, axis=-1, qaxis=-1, one_to_one=True):
     v = np.asarray(v)
 
     if q.dtype != quaternion:
-        q = as_quat_array(np.swapaxes(q, qaxis, -1))
+        q = as_quat_array(np.moveaxis(q, qaxis, -1))
 
     if not one_to_one or q.ndim == 0:
         return quat_rv(q, v, axis=axis)
-- 
2.43.0


From 315f1ab194a367cb66cccbd41d7917292a628ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 22/67] fix: cartesian_to_spherical is NaN at the origin

---
 rigid_body_motion/coordinate_systems.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/coordinate_systems.py b/rigid_body_motion/coordinate_systems.py
index 373da27..53f54e1 100644
--- a/rigid_body_motion/coordinate_systems.py
+++ b/rigid_body_motion/coordinate_systems.py
@@ -81,9 +81,11 @@ def cartesian_to_spherical(arr, axis=-1):
             f"instead."
         )
 
+    x, y, z = (np.take(arr, i, axis=axis) for i in range(3))
     r = np.linalg.norm(arr, axis=axis)
-    theta = np.arccos(np.take(arr, 2, axis=axis) / r)
-    phi = np.arctan2(np.take(arr, 1, axis=axis), np.take(arr, 0, axis=axis))
+    # also well-defined at the origin and accurate at the poles
+    theta = np.arctan2(np.hypot(x, y), z)
+    phi = np.arctan2(y, x)
     return np.stack((r, theta, phi), axis=axis)
 
 
-- 
2.43.0


From c5288e910613b762ba10dfcd0e14d0118f4378ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 23/67] fix: shortest_arc_rotation of opposite or very short
 vectors is NaN

---
 rigid_body_motion/estimators.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 2fb18a3..0547240 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -264,15 +264,22 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v1 = np.asarray(v1)
-    v2 = np.asarray(v2)
-
-    sn1 = np.sum(v1**2, axis=axis, keepdims=True)
-    sn2 = np.sum(v2**2, axis=axis, keepdims=True)
-    d12 = np.sum(v1 * v2, axis=axis, keepdims=True)
-    c12 = np.cross(v1, v2, axis=axis)
-    rotation = np.concatenate((np.sqrt(sn1 * sn2) + d12, c12), axis=axis)
-    rotation /= np.linalg.norm(rotation, axis=axis, keepdims=True)
+    v1 = np.moveaxis(np.asarray(v1), axis, -1)
+    v2 = np.moveaxis(np.asarray(v2), axis, -1)
+    v1 = v1 / np.linalg.norm(v1, axis=-1, keepdims=True)
+    v2 = v2 / np.linalg.norm(v2, axis=-1, keepdims=True)
+
+    d12 = np.sum(v1 * v2, axis=-1, keepdims=True)
+    c12 = np.cross(v1, v2)
+    rotation = np.concatenate((1.0 + d12, c12), axis=-1)
+
+    # opposite vectors: half a turn around any perpendicular axis
+    perp = np.cross(v1, np.eye(3)[np.argmin(np.abs(v1), axis=-1)])
+    opposite = np.linalg.norm(rotation, axis=-1, keepdims=True) < 1e-8
+    rotation[..., 1:] = np.where(opposite, perp, rotation[..., 1:])
+
+    rotation /= np.linalg.norm(rotation, axis=-1, keepdims=True)
+    rotation = np.moveaxis(rotation, -1, axis)
 
     if coords is not None:
         coords, dims = _replace_dim(coords, dims, axis, "quaternion", 3)
-- 
2.43.0


From 31aeaab0d7a5421628397039acd378798f834a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 24/67] fix: best_fit_rotation returns the rotation of a
 reflection

---
 rigid_body_motion/estimators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 0547240..ba14590 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -331,6 +331,11 @@ def best_fit_rotation(v1, v2, dim=None, axis=None):
     U, S, Vt = np.linalg.svd(H)
     R = np.dot(Vt.T, U.T)
 
+    # special reflection case
+    if np.linalg.det(R) < 0:
+        Vt[2, :] *= -1
+        R = np.dot(Vt.T, U.T)
+
     # rotation as quaternion
     rotation = as_float_array(from_rotation_matrix(R))
 
-- 
2.43.0


From 760f58b9da3096809518a83a03b6cd7e72e69312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 25/67] fix: outlier suppression of velocities that are not
 (time, space)

---
 rigid_body_motion/core.py       | 63 ++++++++++++++++++++++++---------
 rigid_body_motion/estimators.py |  1 +
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index c8090c9..d8d1dbd 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -750,6 +750,30 @@ def _make_velocity_dataarray(
     return da
 
 
+def _suppress_outliers(velocity, diff, timestamps, time_axis, outlier_thresh):
+    """Interpolate velocities with second-order differences above threshold.
+
+    The spatial axis must be the last axis of `velocity` and missing in `diff`.
+    """
+    velocity = np.moveaxis(velocity, time_axis, 0)
+    diff = np.moveaxis(diff, time_axis, 0)
+    pad = np.zeros((1,) + diff.shape[1:])
+    diff = np.concatenate((diff, pad, pad)) + np.concatenate((pad, diff, pad))
+
+    out = np.empty_like(velocity)
+    for idx in np.ndindex(*diff.shape[1:]):
+        idx = (slice(None),) + idx
+        valid = diff[idx] <= outlier_thresh
+        out[idx] = interp1d(
+            timestamps[valid],
+            velocity[idx][valid],
+            axis=0,
+            bounds_error=False,
+        )(timestamps)
+
+    return np.moveaxis(out, 0, time_axis)
+
+
 def _estimate_angular_velocity(
     rotation,
     timestamps,
@@ -811,13 +835,9 @@ def _estimate_angular_velocity(
             ),
             axis=-1,
         )
-        dr = np.hstack((dr, 0.0, 0.0)) + np.hstack((0.0, dr, 0.0))
-        angular = interp1d(
-            timestamps[dr <= outlier_thresh],
-            angular[dr <= outlier_thresh],
-            axis=time_axis,
-            bounds_error=False,
-        )(timestamps)
+        angular = _suppress_outliers(
+            angular, dr, timestamps, time_axis, outlier_thresh
+        )
 
     if cutoff is not None:
         angular = filtfilt(*butter(7, cutoff), angular, axis=time_axis)
@@ -830,7 +850,12 @@ def _estimate_angular_velocity(
 
 
 def _estimate_linear_velocity(
-    translation, timestamps, time_axis=0, outlier_thresh=None, cutoff=None
+    translation,
+    timestamps,
+    time_axis=0,
+    outlier_thresh=None,
+    cutoff=None,
+    axis=-1,
 ):
     """Estimate linear velocity of transform."""
     if np.issubdtype(timestamps.dtype, np.datetime64):
@@ -839,14 +864,20 @@ def _estimate_linear_velocity(
     linear = np.gradient(translation, timestamps, axis=time_axis)
 
     if outlier_thresh is not None:
-        dt = np.linalg.norm(np.diff(translation, n=2, axis=time_axis), axis=1)
-        dt = np.hstack((dt, 0.0, 0.0)) + np.hstack((0.0, dt, 0.0))
-        linear = interp1d(
-            timestamps[dt <= outlier_thresh],
-            linear[dt <= outlier_thresh],
-            axis=time_axis,
-            bounds_error=False,
-        )(timestamps)
+        axis = axis % linear.ndim
+        dt = np.moveaxis(translation, (time_axis, axis), (0, -1))
+        dt = np.linalg.norm(np.diff(dt, n=2, axis=0), axis=-1)
+        linear = np.moveaxis(
+            _suppress_outliers(
+                np.moveaxis(linear, (time_axis, axis), (0, -1)),
+                dt,
+                timestamps,
+                0,
+                outlier_thresh,
+            ),
+            (0, -1),
+            (time_axis, axis),
+        )
 
     if cutoff is not None:
         linear = filtfilt(*butter(7, cutoff), linear, axis=time_axis)
diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index ba14590..d1bb0b2 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -135,6 +135,7 @@ def estimate_linear_velocity(
         time_axis=time_axis,
         outlier_thresh=outlier_thresh,
         cutoff=cutoff,
+        axis=axis,
     )
 
     if coords is not None:
-- 
2.43.0


From 34bab5af3f2e0b0063c3ae2c5131ef7cddeb7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 26/67] fix: velocity estimation with lists of timestamps

---
 rigid_body_motion/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index d8d1dbd..823c75a 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -784,6 +784,8 @@ def _estimate_angular_velocity(
     cutoff=None,
 ):
     """Estimate angular velocity of transform."""
+    rotation = np.asarray(rotation)
+    timestamps = np.asarray(timestamps)
     if np.issubdtype(timestamps.dtype, np.datetime64):
         timestamps = _timestamps_to_float(timestamps) / 1e9
 
@@ -858,6 +860,8 @@ def _estimate_linear_velocity(
     axis=-1,
 ):
     """Estimate linear velocity of transform."""
+    translation = np.asarray(translation)
+    timestamps = np.asarray(timestamps)
     if np.issubdtype(timestamps.dtype, np.datetime64):
         timestamps = _timestamps_to_float(timestamps) / 1e9
 
-- 
2.43.0


From e56cfd018e784d8a5f441da71fb08082388f38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 27/67] fix: shortest_arc_rotation of opposite vectors in
 single precision

---
 rigid_body_motion/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index d1bb0b2..6c41360 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -265,8 +265,8 @@ def shortest_arc_rotation(v1, v2, dim=None, axis=None):
     v1, axis, _, _, _, _, coords, dims, name, attrs = _maybe_unpack_dataarray(
         v1, dim, axis, None, False
     )
-    v1 = np.moveaxis(np.asarray(v1), axis, -1)
-    v2 = np.moveaxis(np.asarray(v2), axis, -1)
+    v1 = np.moveaxis(np.asarray(v1, dtype=float), axis, -1)
+    v2 = np.moveaxis(np.asarray(v2, dtype=float), axis, -1)
     v1 = v1 / np.linalg.norm(v1, axis=-1, keepdims=True)
     v2 = v2 / np.linalg.norm(v2, axis=-1, keepdims=True)
 
-- 
2.43.0


From 3f441bbfa1c3ad003d0a4a088f2008070cbabd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:46 +0000
Subject: [PATCH 28/67] fix: rotation vector mode depends on the sign of the
 first quaternion

---
 rigid_body_motion/core.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 823c75a..a000b81 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -750,6 +750,16 @@ def _make_velocity_dataarray(
     return da
 
 
+def _continuous_rotation_vector(rotation, time_axis):
+    """Rotation vectors of a time series, without jumps where signs change."""
+    q = unflip_rotors(as_quat_array(rotation), axis=time_axis)
+    # start with the shorter of the two rotation vectors of the first sample
+    flip = as_float_array(q.take([0], axis=time_axis))[..., :1] < 0
+    q = as_quat_array(np.where(flip, -1, 1) * as_float_array(q))
+
+    return as_rotation_vector(q)
+
+
 def _suppress_outliers(velocity, diff, timestamps, time_axis, outlier_thresh):
     """Interpolate velocities with second-order differences above threshold.
 
@@ -817,9 +827,7 @@ def _estimate_angular_velocity(
         angular = np.nan * np.ones_like(r[..., :-1])
         angular[valid_idx] = as_float_array(2 * q.conjugate() * dq)[..., 1:]
     elif mode == "rotation_vector":
-        rv = as_rotation_vector(
-            unflip_rotors(as_quat_array(r), axis=time_axis)
-        )
+        rv = _continuous_rotation_vector(r, time_axis)
         angular = np.gradient(rv, timestamps, axis=time_axis)
     else:
         raise ValueError(
@@ -829,11 +837,7 @@ def _estimate_angular_velocity(
     if outlier_thresh is not None:
         dr = np.linalg.norm(
             np.diff(
-                as_rotation_vector(
-                    unflip_rotors(as_quat_array(r), axis=time_axis)
-                ),
-                n=2,
-                axis=time_axis,
+                _continuous_rotation_vector(r, time_axis), n=2, axis=time_axis
             ),
             axis=-1,
         )
-- 
2.43.0


From c9b5e8c9cdc05e7f22fd349177c7fa7958aebb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 29/67] fix: ROS transform stamps of timestamps that are not
 datetime64[ns]

Numeric timestamps are seconds, but were divided by 1e9, and datetime64
timestamps of another unit were interpreted as nanoseconds.
---
 rigid_body_motion/ros/transformer.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c18b13b..2a3670f 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -3,10 +3,20 @@ from threading import Thread
 import numpy as np
 from anytree import PreOrderIter
 
-from rigid_body_motion.core import _resolve_rf
+from rigid_body_motion.core import _resolve_rf, _timestamps_to_float
 from rigid_body_motion.reference_frames import ReferenceFrame
 
 
+def _timestamps_to_seconds(timestamps):
+    """Convert timestamps to seconds, numeric timestamps are seconds."""
+    timestamps = np.asarray(timestamps)
+
+    if np.issubdtype(timestamps.dtype, np.datetime64):
+        return _timestamps_to_float(timestamps) / 1e9
+    else:
+        return timestamps.astype(float)
+
+
 class Transformer:
     """Wrapper class for tf2_ros.Buffer.
 
@@ -48,14 +58,10 @@ class Transformer:
         root = reference_frame.root
 
         # get the first and last timestamps for all moving reference frames
-        # TODO float timestamps
         t_start_end = list(
             zip(
                 *[
-                    (
-                        node.timestamps[0].astype(float) / 1e9,
-                        node.timestamps[-1].astype(float) / 1e9,
-                    )
+                    _timestamps_to_seconds(node.timestamps)[[0, -1]]
                     for node in PreOrderIter(root)
                     if node.timestamps is not None
                 ]
@@ -108,7 +114,7 @@ class Transformer:
         for translation, rotation, timestamp in zip(
             reference_frame.translation,
             reference_frame.rotation,
-            reference_frame.timestamps,
+            _timestamps_to_seconds(reference_frame.timestamps),
         ):
             self._buffer.set_transform(
                 make_transform_msg(
@@ -116,7 +122,7 @@ class Transformer:
                     rotation,
                     reference_frame.parent.name,
                     reference_frame.name,
-                    timestamp.astype(float) / 1e9,
+                    timestamp,
                 ),
                 "default_authority",
             )
@@ -454,7 +460,7 @@ class ReferenceFrameTransformBroadcaster:
                 )
         else:
             idx = idx or self.idx
-            ts = self.timestamps.values[idx].astype(float) / 1e9
+            ts = _timestamps_to_seconds(self.timestamps)[idx]
             transform = make_transform_msg(
                 self.translation[idx],
                 self.rotation[idx],
-- 
2.43.0


From ea7b7bafa91d56d84a1c6ed9eded097a39d5087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 30/67] fix: transformer drops the first transforms of the
 recorded interval

---
 rigid_body_motion/ros/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 2a3670f..311fcfa 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -71,8 +71,10 @@ class Transformer:
         if len(t_start_end) == 0:
             transformer = Transformer(cache_time=None)
         else:
-            # cache time from earliest start to latest end
+            # cache time from earliest start to latest end, with a margin for
+            # the limited precision of times in seconds
             cache_time = np.max(t_start_end[1]) - np.min(t_start_end[0])
+            cache_time = cache_time + 1e-3
             transformer = Transformer(cache_time=cache_time)
 
         for node in PreOrderIter(root):
-- 
2.43.0


From d5d3b17906f4e3b92da6de7116732935decba9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 31/67] fix: twist published by the transform broadcaster has
 no time stamp

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 311fcfa..b50e938 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -486,7 +486,7 @@ class ReferenceFrameTransformBroadcaster:
         if self.twist_publisher is not None:
             self.twist_publisher.publish(
                 make_twist_msg(
-                    self.linear[idx], self.angular[idx], self.frame.name
+                    self.linear[idx], self.angular[idx], self.frame.name, ts
                 )
             )
 
-- 
2.43.0


From 73c62af7babe75fed8baf32119e6cfd425e3594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 32/67] fix: publish(0) of the transform broadcaster publishes
 the current sample

---
 rigid_body_motion/ros/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index b50e938..458fa65 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -461,7 +461,7 @@ class ReferenceFrameTransformBroadcaster:
                     self.base.name,
                 )
         else:
-            idx = idx or self.idx
+            idx = self.idx if idx is None else idx
             ts = _timestamps_to_seconds(self.timestamps)[idx]
             transform = make_transform_msg(
                 self.translation[idx],
-- 
2.43.0


From 933b6136fcbcfd0bb37d00b5c592cd621160bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 33/67] fix: incoming messages raise in the transform
 broadcaster

Index.get_loc has no method argument in pandas 2 and numeric timestamps
were compared to a date.
---
 rigid_body_motion/ros/transformer.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 458fa65..a87cfb0 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -492,17 +492,14 @@ class ReferenceFrameTransformBroadcaster:
 
     def handle_incoming_msg(self, msg):
         """Publish on incoming message."""
-        import pandas as pd
         import rospy
 
         for transform in msg.transforms:
             if transform.child_frame_id == self.subscribe_to_frame:
                 if self.timestamps is not None:
-                    ts = pd.to_datetime(
-                        rospy.Time.to_sec(transform.header.stamp), unit="s"
-                    )
-                    idx = self.timestamps.get_loc(ts, method="nearest")
-                    self.publish(idx)
+                    ts = rospy.Time.to_sec(transform.header.stamp)
+                    timestamps = _timestamps_to_seconds(self.timestamps)
+                    self.publish(int(np.argmin(np.abs(timestamps - ts))))
                 else:
                     self.publish()
 
-- 
2.43.0


From ad123e8acd12281c2e4d639d57b4567edc6b8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 34/67] fix: playback interval of timestamps that are not
 datetime64[ns]

---
 rigid_body_motion/ros/transformer.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index a87cfb0..bee6bf3 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -505,7 +505,6 @@ class ReferenceFrameTransformBroadcaster:
 
     def _spin_blocking(self):
         """Continuously publish messages."""
-        import pandas as pd
         import rospy
 
         self.stopped = False
@@ -514,22 +513,12 @@ class ReferenceFrameTransformBroadcaster:
             while not rospy.is_shutdown() and not self.stopped:
                 self.publish()
                 self.idx = (self.idx + 1) % len(self.timestamps)
-                if isinstance(self.timestamps, pd.DatetimeIndex):
-                    dt = (
-                        self.timestamps.values[self.idx].astype(float) / 1e9
-                        - self.timestamps.values[self.idx - 1].astype(float)
-                        / 1e9
-                        if self.idx > 0
-                        else 0.0
-                    )
-                else:
-                    dt = float(
-                        self.timestamps.values[self.idx]
-                        - self.timestamps.values[self.idx - 1]
-                        if self.idx > 0
-                        else 0.0
-                    )
-
+                timestamps = _timestamps_to_seconds(self.timestamps)
+                dt = (
+                    timestamps[self.idx] - timestamps[self.idx - 1]
+                    if self.idx > 0
+                    else 0.0
+                )
                 rospy.sleep(dt)
         else:
             rospy.spin()
-- 
2.43.0


From 542be6362a62094a94b997128dc97f97c57779d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 35/67] fix: spin() does not return the publisher thread

---
 rigid_body_motion/ros/transformer.py   | 3 ++-
 rigid_body_motion/ros/visualization.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index bee6bf3..53e5fdc 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -539,7 +539,7 @@ class ReferenceFrameTransformBroadcaster:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
         if self.timestamps is None:
             self.publish()
@@ -548,6 +548,7 @@ class ReferenceFrameTransformBroadcaster:
         else:
             self._thread = Thread(target=self._spin_blocking)
             self._thread.start()
+            return self._thread
 
     def stop(self):
         """Stop publishing."""
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index a9f65d9..0ec6b5a 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -151,13 +151,14 @@ class BaseMarkerPublisher:
         Returns
         -------
         thread: threading.Thread
-            If `block=True`, the Thread instance that runs the loop.
+            If `block=False`, the Thread instance that runs the loop.
         """
         if block:
             self._spin_blocking()
         else:
             self._thread = Thread(target=self._spin_blocking)
             self._thread.start()
+            return self._thread
 
     def stop(self):
         """Stop publishing."""
-- 
2.43.0


From 7ccc6a753a5269a6f0033510520f621afda34bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 36/67] fix: stop() right after spin() is lost

The publisher thread reset the flag when it started running.
---
 rigid_body_motion/ros/transformer.py   | 5 +++--
 rigid_body_motion/ros/visualization.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 53e5fdc..254e559 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -507,8 +507,6 @@ class ReferenceFrameTransformBroadcaster:
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
         if self.subscriber is None and self.timestamps is not None:
             while not rospy.is_shutdown() and not self.stopped:
                 self.publish()
@@ -541,6 +539,9 @@ class ReferenceFrameTransformBroadcaster:
         thread: threading.Thread
             If `block=False`, the Thread instance that runs the loop.
         """
+        # reset here so that the thread can't overwrite a subsequent stop()
+        self.stopped = False
+
         if self.timestamps is None:
             self.publish()
         elif block:
diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 0ec6b5a..c1a194c 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -129,8 +129,6 @@ class BaseMarkerPublisher:
         """Continuously publish messages."""
         import rospy
 
-        self.stopped = False
-
         while not rospy.is_shutdown() and not self.stopped:
             self.publish()
             rospy.sleep(self.publish_interval)
@@ -153,6 +151,9 @@ class BaseMarkerPublisher:
         thread: threading.Thread
             If `block=False`, the Thread instance that runs the loop.
         """
+        # reset here so that the thread can't overwrite a subsequent stop()
+        self.stopped = False
+
         if block:
             self._spin_blocking()
         else:
-- 
2.43.0


From bce7c2afb307ef8842bfb16bd9471c73dbf72dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 37/67] fix: stop() does not end spinning of a subscribed
 transform broadcaster

---
 rigid_body_motion/ros/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 254e559..c2db9f0 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -519,7 +519,9 @@ class ReferenceFrameTransformBroadcaster:
                 )
                 rospy.sleep(dt)
         else:
-            rospy.spin()
+            # incoming messages are handled in the threads of the subscriber
+            while not rospy.is_shutdown() and not self.stopped:
+                rospy.sleep(0.1)
 
         self.stopped = True
 
-- 
2.43.0


From ebd327e7a46fa07c487b90619a5d05fbbe0f5ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 38/67] fix: stopped transform broadcaster publishes incoming
 messages

---
 rigid_body_motion/ros/transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index c2db9f0..3a5b793 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -494,6 +494,9 @@ class ReferenceFrameTransformBroadcaster:
         """Publish on incoming message."""
         import rospy
 
+        if self.stopped:
+            return
+
         for transform in msg.transforms:
             if transform.child_frame_id == self.subscribe_to_frame:
                 if self.timestamps is not None:
-- 
2.43.0


From c97412532ee30d4303381bd7ca1aa6fce0dd4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:28 +0000
Subject: [PATCH 39/67] fix: sub-sampling of the path marker

Frames with fewer samples than max_points raised, others could be shown
with up to twice as many points.
---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index c1a194c..ffdf8cb 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -210,7 +210,7 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = self.translation.shape[0] // max_points
+        show_every = max(-(-self.translation.shape[0] // max_points), 1)
         marker.points = [Point(*row) for row in self.translation[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
-- 
2.43.0


From 25e2be59bbb86d1cd473b1e00412635607ddbbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 40/67] fix: get_marker creates a line strip instead of an
 arrow

---
 rigid_body_motion/ros/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index ffdf8cb..e354b8e 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -63,7 +63,7 @@ def get_marker(
 
     marker = Marker()
 
-    marker.type = marker_type or Marker.LINE_STRIP
+    marker.type = Marker.LINE_STRIP if marker_type is None else marker_type
     marker.header.frame_id = frame_id
 
     if isinstance(scale, float):
-- 
2.43.0


From f09ecb6f0f8f4ff4d32eb6b28692d5dbb7f3b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 41/67] fix: get_marker with a scale that is not a Python float

---
 rigid_body_motion/ros/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index e354b8e..78c157d 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -1,6 +1,8 @@
 from io import BytesIO
 from threading import Thread
 
+import numpy as np
+
 from rigid_body_motion.core import _resolve_rf
 
 
@@ -66,7 +68,7 @@ def get_marker(
     marker.type = Marker.LINE_STRIP if marker_type is None else marker_type
     marker.header.frame_id = frame_id
 
-    if isinstance(scale, float):
+    if np.ndim(scale) == 0:
         marker.scale = Vector3(scale, scale, scale)
     else:
         marker.scale = Vector3(*scale)
-- 
2.43.0


From d51586415bf1b85bdac409203b785e47d88bd187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 42/67] fix: path marker of a static frame raises

---
 rigid_body_motion/ros/visualization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index 78c157d..dd52db9 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -212,8 +212,9 @@ class ReferenceFrameMarkerPublisher(BaseMarkerPublisher):
         marker = get_marker(
             frame_id=self.base.name, scale=(scale, 0.0, 0.0), color=color
         )
-        show_every = max(-(-self.translation.shape[0] // max_points), 1)
-        marker.points = [Point(*row) for row in self.translation[::show_every]]
+        translation = np.atleast_2d(self.translation)
+        show_every = max(-(-translation.shape[0] // max_points), 1)
+        marker.points = [Point(*row) for row in translation[::show_every]]
 
         topic = topic or f"/{self.frame.name}/path"
 
-- 
2.43.0


From 65ff030e40b00818c96c51d29041ef866f84a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 43/67] fix: exporting a rosbag topic to a path given as str

---
 rigid_body_motion/ros/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4f1dada..8169e76 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -39,8 +39,8 @@ class RosbagReader:
             folder, filename = self.bag_file.parent, self.bag_file.stem
             filename = folder / f"{filename}.{extension}"
         else:
-            folder = output_file.parent
-            filename = output_file
+            filename = Path(output_file)
+            folder = filename.parent
 
         folder.mkdir(parents=True, exist_ok=True)
 
-- 
2.43.0


From 44c8430c92417d2b0d0bc544583af9b943a8eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 44/67] fix: writing datetime64 timestamps to a rosbag

Arrays raised and datasets with another unit than nanoseconds were written
with wrong time stamps.
---
 rigid_body_motion/ros/io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 8169e76..4102893 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -2,6 +2,8 @@ from pathlib import Path
 
 import numpy as np
 
+from rigid_body_motion.core import _timestamps_to_float
+
 
 class RosbagReader:
     """Reader for motion topics from rosbag files."""
@@ -297,6 +299,8 @@ class RosbagWriter:
         timestamps = np.asarray(timestamps)
         if timestamps.ndim != 1:
             raise ValueError("timestamps must be one-dimensional")
+        if np.issubdtype(timestamps.dtype, np.datetime64):
+            timestamps = _timestamps_to_float(timestamps) / 1e9
 
         # check translation
         translation = np.asarray(translation)
@@ -354,13 +358,8 @@ class RosbagWriter:
         rotation: str, default 'orientation'
             Name of the variable containing the rotation.
         """
-        if np.issubdtype(ds[timestamps].dtype, np.datetime64):
-            timestamps = ds[timestamps].astype(float) / 1e9
-        else:
-            timestamps = ds[timestamps]
-
         self.write_transform_stamped(
-            timestamps,
+            ds[timestamps],
             ds[translation],
             ds[rotation],
             topic,
-- 
2.43.0


From cd47410d28222f187f7347640ae692311fe9b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 45/67] fix: writing datasets whose first dimension is not time
 to a rosbag

Three translations or four rotations were written transposed.
---
 rigid_body_motion/ros/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 4102893..dcfffd1 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -358,10 +358,12 @@ class RosbagWriter:
         rotation: str, default 'orientation'
             Name of the variable containing the rotation.
         """
+        dims = ds[timestamps].dims
+
         self.write_transform_stamped(
             ds[timestamps],
-            ds[translation],
-            ds[rotation],
+            ds[translation].transpose(*dims, ...),
+            ds[rotation].transpose(*dims, ...),
             topic,
             frame,
             child_frame,
-- 
2.43.0


From 48ad826e118f0a1942a127450bbe1e0643aca30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 46/67] fix: topics that differ in slashes and underscores
 share a cache file

---
 rigid_body_motion/ros/io.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index dcfffd1..61147e2 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -182,11 +182,9 @@ class RosbagReader:
         import xarray as xr
 
         if cache:
-            filepath = (
-                self.bag_file.parent
-                / "cache"
-                / f"{topic.replace('/', '_')}.nc"
-            )
+            # escape underscores so that each topic has its own file
+            filename = topic.replace("_", "%5F").replace("/", "_")
+            filepath = self.bag_file.parent / "cache" / f"{filename}.nc"
             if not filepath.exists():
                 self.export(topic, filepath)
             return xr.open_dataset(filepath)
-- 
2.43.0


From 761ef774d1cd92629afe6dcdefb443fda2a138d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 47/67] fix: interrupted export leaves an incomplete cache file

---
 rigid_body_motion/ros/io.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 61147e2..14eb2b7 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -1,3 +1,4 @@
+import os
 from pathlib import Path
 
 import numpy as np
@@ -62,7 +63,15 @@ class RosbagReader:
         for v in ds.data_vars:
             encoding[v] = comp
 
-        ds.to_netcdf(filename, encoding=encoding)
+        # write to a temporary file first so that an interruption doesn't leave
+        # an incomplete file behind
+        temp_file = Path(f"{filename}.{os.getpid()}.tmp")
+        try:
+            ds.to_netcdf(temp_file, encoding=encoding)
+            temp_file.replace(filename)
+        finally:
+            if temp_file.exists():
+                temp_file.unlink()
 
     def get_topics_and_types(self):
         """Get topics and corresponding message types included in rosbag.
-- 
2.43.0


From 7c7b8b00dedcfe912884f4788332480c0da00713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 48/67] fix: cached load returns the data of another bag in the
 same folder

---
 rigid_body_motion/ros/io.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/io.py b/rigid_body_motion/ros/io.py
index 14eb2b7..7009a38 100644
--- a/rigid_body_motion/ros/io.py
+++ b/rigid_body_motion/ros/io.py
@@ -194,8 +194,15 @@ class RosbagReader:
             # escape underscores so that each topic has its own file
             filename = topic.replace("_", "%5F").replace("/", "_")
             filepath = self.bag_file.parent / "cache" / f"{filename}.nc"
-            if not filepath.exists():
-                self.export(topic, filepath)
+            bag_name = self.bag_file.name
+            if filepath.exists():
+                ds = xr.open_dataset(filepath)
+                # another bag in this folder can have the same topic
+                if ds.attrs.get("bag_file", bag_name) == bag_name:
+                    return ds
+                ds.close()
+            ds = self.load_dataset(topic).assign_attrs(bag_file=bag_name)
+            self._write_netcdf(ds, self._get_filename(filepath, "nc"))
             return xr.open_dataset(filepath)
 
         motion = self.load_messages(topic)
-- 
2.43.0


From 0e418159176d1822a5323b8f93bfe88445243c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 49/67] fix: positions of OptiTrack exports in millimeters or
 unknown units are taken as meters

---
 rigid_body_motion/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 532e26e..60174ba 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -54,10 +54,11 @@ def load_optitrack(filepath, import_format="numpy"):
         for idx, gp in df.groupby(level=0, axis=1)
     }
 
-    # convert cm to m (if applicable)
-    if meta.get("Length Units", None) == "Centimeters":
-        for name in data_dict:
-            data_dict[name]["Position"] /= 100
+    # convert to m (if applicable)
+    length_units = meta.get("Length Units", "Meters")
+    factors = {"Meters": 1, "Centimeters": 100, "Millimeters": 1000}
+    if length_units not in factors:
+        raise ValueError(f"Unsupported length units: {length_units}")
 
     # convert orientation to quaternions
     for name in data_dict:
@@ -70,7 +71,7 @@ def load_optitrack(filepath, import_format="numpy"):
         )
         q = from_euler_angles(rpy, order=order)
 
-        position = data_dict[name]["Position"]
+        position = data_dict[name]["Position"] / factors[length_units]
         position.columns = position.columns.str.lower()
         orientation = pd.DataFrame(
             q, index=position.index, columns=["w", "x", "y", "z"]
-- 
2.43.0


From efd9eaaee41a6da092dadb8866a2f02a3eec6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:39 +0000
Subject: [PATCH 50/67] fix: axes of OptiTrack exports are mixed up if the
 columns are not in x, y, z order

---
 rigid_body_motion/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 60174ba..549d543 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -62,7 +62,7 @@ def load_optitrack(filepath, import_format="numpy"):
 
     # convert orientation to quaternions
     for name in data_dict:
-        rpy = np.deg2rad(data_dict[name]["Rotation"].values)
+        rpy = np.deg2rad(data_dict[name]["Rotation"][["X", "Y", "Z"]].values)
         order = (
             meta.get("Rotation Type", "XYZ")
             .replace("X", "r")
@@ -71,7 +71,8 @@ def load_optitrack(filepath, import_format="numpy"):
         )
         q = from_euler_angles(rpy, order=order)
 
-        position = data_dict[name]["Position"] / factors[length_units]
+        position = data_dict[name]["Position"][["X", "Y", "Z"]]
+        position = position / factors[length_units]
         position.columns = position.columns.str.lower()
         orientation = pd.DataFrame(
             q, index=position.index, columns=["w", "x", "y", "z"]
-- 
2.43.0


From 2c0f14dde0c23993af9846f54cb0cdb4bd2f68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 51/67] fix: samples missing in OptiTrack exports are imported
 with the identity orientation

---
 rigid_body_motion/io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rigid_body_motion/io.py b/rigid_body_motion/io.py
index 549d543..52675b9 100644
--- a/rigid_body_motion/io.py
+++ b/rigid_body_motion/io.py
@@ -70,6 +70,7 @@ def load_optitrack(filepath, import_format="numpy"):
             .replace("Z", "y")
         )
         q = from_euler_angles(rpy, order=order)
+        q[np.isnan(rpy).any(axis=-1)] = np.nan
 
         position = data_dict[name]["Position"][["X", "Y", "Z"]]
         position = position / factors[length_units]
-- 
2.43.0


From ae9b120d2bd5450acd1564f24dfc7570c2fd6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 52/67] fix: plotting a reference frame overwrites the y limits
 with the z limits

---
 rigid_body_motion/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index 86abb46..c805741 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -80,7 +80,7 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ]
     ax.set_xlim3d(x_lim_new)
     ax.set_ylim3d(y_lim_new)
-    ax.set_ylim3d(z_lim_new)
+    ax.set_zlim3d(z_lim_new)
 
     return [x_arrow, y_arrow, z_arrow]
 
-- 
2.43.0


From ee582d446bde2ad3007d1d01c70cf000420aff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 53/67] fix: z axis of plots has a different scale

---
 rigid_body_motion/plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index c805741..8ec5c3b 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -108,6 +108,10 @@ def _set_axes_equal(ax):
     ax.set_ylim3d([y_middle - plot_radius, y_middle + plot_radius])
     ax.set_zlim3d([z_middle - plot_radius, z_middle + plot_radius])
 
+    # equal ranges only have equal scale if the box is a cube
+    if hasattr(ax, "set_box_aspect"):
+        ax.set_box_aspect((1, 1, 1))
+
 
 def plot_reference_frame(
     frame, world_frame=None, ax=None, figsize=(6, 6), arrow_len=1.0
-- 
2.43.0


From e7e8a195af7a69f87209a1b3f26ecb3e4eb61c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 54/67] fix: limits of plots do not contain plotted vectors and
 later points

---
 rigid_body_motion/plotting.py | 47 +++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index 8ec5c3b..de77273 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -63,28 +63,25 @@ def _add_frame(ax, frame, world_frame=None, arrow_len=1.0):
     ax.add_artist(z_arrow)
 
     # manually update axis limits
-    x_lim_old = ax.get_xlim3d()
-    y_lim_old = ax.get_ylim3d()
-    z_lim_old = ax.get_zlim3d()
-    x_lim_new = [
-        np.min((x_lim_old[0], o[0], x[0], y[0], z[0])),
-        np.max((x_lim_old[1], o[0], x[0], y[0], z[0])),
-    ]
-    y_lim_new = [
-        np.min((y_lim_old[0], o[1], x[1], y[1], z[1])),
-        np.max((y_lim_old[1], o[1], x[1], y[1], z[1])),
-    ]
-    z_lim_new = [
-        np.min((z_lim_old[0], o[2], x[2], y[2], z[2])),
-        np.max((z_lim_old[1], o[2], x[2], y[2], z[2])),
-    ]
-    ax.set_xlim3d(x_lim_new)
-    ax.set_ylim3d(y_lim_new)
-    ax.set_zlim3d(z_lim_new)
+    _extend_limits(ax, [o, x, y, z])
 
     return [x_arrow, y_arrow, z_arrow]
 
 
+def _extend_limits(ax, points):
+    """Extend limits of 3D plot such that they contain an array of points."""
+    points = np.asarray(points, dtype=float)
+    points = points[np.isfinite(points).all(axis=1)]
+
+    x_limits = np.append(points[:, 0], ax.get_xlim3d())
+    y_limits = np.append(points[:, 1], ax.get_ylim3d())
+    z_limits = np.append(points[:, 2], ax.get_zlim3d())
+
+    ax.set_xlim3d([np.min(x_limits), np.max(x_limits)])
+    ax.set_ylim3d([np.min(y_limits), np.max(y_limits)])
+    ax.set_zlim3d([np.min(z_limits), np.max(z_limits)])
+
+
 def _set_axes_equal(ax):
     """Make axes of 3D plot have equal scale.
     from https://stackoverflow.com/a/31364297
@@ -196,6 +193,8 @@ def plot_points(arr, ax=None, figsize=(6, 6), fmt="", **kwargs):
 
     lines = ax.plot(arr[:, 0], arr[:, 1], arr[:, 2], fmt, **kwargs)
 
+    # existing axes with fixed limits are not autoscaled
+    _extend_limits(ax, arr)
     _set_axes_equal(ax)
 
     return lines
@@ -297,6 +296,18 @@ def plot_vectors(arr, base=None, ax=None, figsize=(6, 6), **kwargs):
         **kwargs,
     )
 
+    # autoscaling only considers the base points, if at all
+    vec = np.asarray(kwargs.get("length", 1.0) * arr, dtype=float)
+    if kwargs.get("normalize", False):
+        norm = np.linalg.norm(arr, axis=1, keepdims=True)
+        vec = vec / np.where(norm == 0.0, 1.0, norm)
+    start = {"tail": 0.0, "middle": -0.5, "tip": -1.0}[
+        kwargs.get("pivot", "tail")
+    ]
+    _extend_limits(
+        ax,
+        np.concatenate((base, base + start * vec, base + (start + 1.0) * vec)),
+    )
     _set_axes_equal(ax)
 
     return lines
-- 
2.43.0


From 31bb8e8b3062c21b41144ec2f17247c59a2fcb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 55/67] fix: static frames moving with respect to the world
 frame are plotted at a wrong place

---
 rigid_body_motion/plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigid_body_motion/plotting.py b/rigid_body_motion/plotting.py
index de77273..061db66 100644
--- a/rigid_body_motion/plotting.py
+++ b/rigid_body_motion/plotting.py
@@ -149,6 +149,10 @@ def plot_reference_frame(
     if frame.timestamps is not None:
         raise NotImplementedError("Can only plot static reference frames")
 
+    if world_frame is not None:
+        if frame.lookup_transform(world_frame)[2] is not None:
+            raise NotImplementedError("Can only plot static reference frames")
+
     arrows = _add_frame(ax, frame, world_frame, arrow_len=arrow_len)
 
     _set_axes_equal(ax)
-- 
2.43.0


From de3675cbf6c521bc5ba3f860851243763acf6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 56/67] fix: from_rotation_matrix with matrices that are not
 numpy arrays

---
 rigid_body_motion/reference_frames.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rigid_body_motion/reference_frames.py b/rigid_body_motion/reference_frames.py
index 6fa7246..94c481b 100644
--- a/rigid_body_motion/reference_frames.py
+++ b/rigid_body_motion/reference_frames.py
@@ -563,6 +563,7 @@ class ReferenceFrame(NodeMixin):
             The constructed reference frame.
         """
         # TODO support moving reference frame
+        mat = np.asarray(mat)
         if mat.shape != (3, 3):
             raise ValueError(
                 f"Expected mat to have shape (3, 3), got {mat.shape}"
-- 
2.43.0


From 2c379b467391c722e35cb40d4fba3d1a0e9f94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 57/67] fix: samples next to missing samples are lost

---
 rigid_body_motion/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index a000b81..0a957d1 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -40,13 +40,22 @@ def _interpolate(arr, t_in, t_out, rotation=False):
     t_in = _timestamps_to_float(t_in)
     t_out = _timestamps_to_float(t_out)
 
+    # interpolation must not propagate missing samples to existing ones
+    idx = np.minimum(np.searchsorted(t_in, t_out), len(t_in) - 1)
+    is_sample = t_in[idx] == t_out
+
     if rotation:
-        return as_float_array(
+        out = as_float_array(
             squad(as_quat_array(arr), t_in, t_out, unflip_input_rotors=True)
         ).reshape((len(t_out),) + arr.shape[1:])
+        is_sample &= np.isnan(out).any(axis=tuple(range(1, out.ndim)))
     else:
         # TODO method + optional scipy dependency?
-        return interp1d(t_in, arr, axis=0)(t_out)
+        out = interp1d(t_in, arr, axis=0)(t_out)
+
+    out[is_sample] = arr[idx[is_sample]]
+
+    return out
 
 
 class TransformMatcher:
-- 
2.43.0


From cc9cf337cf2ab3a1838ffb23f6dee234f70fa4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 58/67] fix: backward button of play_publisher without effect
 at the last message

---
 rigid_body_motion/ros/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 2c3f8ce..09a6cc9 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -107,7 +107,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # backward button
     def button_minus(name):
-        s_idx.value -= skip or step if s_idx.value < s_idx.max else 0
+        s_idx.value -= skip or step if s_idx.value > s_idx.min else 0
 
     backward = widgets.Button(
         description="◄◄", layout=widgets.Layout(width="50px")
-- 
2.43.0


From 2226121f8e2f885045392d3363bf0ddbed28107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:13 +0000
Subject: [PATCH 59/67] fix: playback interval of timestamps that are not in
 nanoseconds

---
 rigid_body_motion/ros/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 09a6cc9..707a002 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -5,6 +5,8 @@ import warnings
 
 import numpy as np
 
+from rigid_body_motion.ros.transformer import _timestamps_to_seconds
+
 
 def init_node(name, start_master=False):
     """Register a client node with the master.
@@ -87,9 +89,10 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
     from ipywidgets import widgets
 
     if timestamps is None:
-        timestamps = np.asarray(publisher.timestamps)
+        timestamps = publisher.timestamps
 
-    interval = np.mean(np.diff(timestamps.astype(float) / 1e6)) / speed
+    # mean time difference in milliseconds
+    interval = np.mean(np.diff(_timestamps_to_seconds(timestamps))) * 1e3 / speed
 
     # position bar
     s_idx = widgets.IntSlider(
-- 
2.43.0


From b162d04ceacc4f368e87aa358600461778d2d083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:13 +0000
Subject: [PATCH 60/67] fix: playback interval is truncated to milliseconds
 instead of rounded

---
 rigid_body_motion/ros/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/utils.py b/rigid_body_motion/ros/utils.py
index 707a002..ef5422c 100644
--- a/rigid_body_motion/ros/utils.py
+++ b/rigid_body_motion/ros/utils.py
@@ -119,7 +119,7 @@ def play_publisher(publisher, step=1, speed=1.0, skip=None, timestamps=None):
 
     # play button
     play = widgets.Play(
-        interval=int(interval * step),
+        interval=round(float(interval * step)),
         value=0,
         min=s_idx.min,
         max=s_idx.max,
-- 
2.43.0


From 2d368be4d37a48ff28675527a0e8b6429e0e8b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:58 +0000
Subject: [PATCH 61/67] fix: unchanged marker is published again because rospy
 sets its sequence number, changed marker is lost when publishing fails

---
 rigid_body_motion/ros/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/visualization.py b/rigid_body_motion/ros/visualization.py
index dd52db9..86ff40d 100644
--- a/rigid_body_motion/ros/visualization.py
+++ b/rigid_body_motion/ros/visualization.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from io import BytesIO
 from threading import Thread
 
@@ -124,8 +125,9 @@ class BaseMarkerPublisher:
         self.marker.serialize(current_message)
 
         if current_message.getvalue() != self.last_message.getvalue():
+            # publish a copy because rospy sets the header's sequence number
+            self.publisher.publish(deepcopy(self.marker))
             self.last_message = current_message
-            self.publisher.publish(self.marker)
 
     def _spin_blocking(self):
         """Continuously publish messages."""
-- 
2.43.0


From 1e6260a3ddb5391b8a7d792093c0ca26c5ae7621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:28 +0000
Subject: [PATCH 62/67] fix: angular velocity of rotations given by quaternions
 of other norms than one

---
 rigid_body_motion/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 0a957d1..2e79073 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -817,6 +817,8 @@ def _estimate_angular_velocity(
         time_axis = axis
 
     r = np.swapaxes(rotation, axis, -1)
+    # quaternions of any norm represent a rotation
+    r = r / np.linalg.norm(r, axis=-1, keepdims=True)
 
     if mode == "quaternion":
         # any NaNs need to be removed because derivative breaks otherwise
-- 
2.43.0


From de456ec54b740e472f198c7fa7ab34fe402235ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:22 +0000
Subject: [PATCH 63/67] fix: best_fit_rotation of integer arrays overflows

---
 rigid_body_motion/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/estimators.py b/rigid_body_motion/estimators.py
index 6c41360..96a63a7 100644
--- a/rigid_body_motion/estimators.py
+++ b/rigid_body_motion/estimators.py
@@ -328,7 +328,7 @@ def best_fit_rotation(v1, v2, dim=None, axis=None):
     v1, v2, was_dataarray = _reshape_vectors(v1, v2, axis, dim)
 
     # rotation matrix
-    H = np.dot(v1.T, v2)
+    H = np.dot(v1.T.astype(float), v2.astype(float))
     U, S, Vt = np.linalg.svd(H)
     R = np.dot(Vt.T, U.T)
 
-- 
2.43.0


From 011cf80b8664cadeb1409e44842f2ea22bbe17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:34 +0000
Subject: [PATCH 64/67] fix: outlier suppression for positions of unsigned or
 small integer types

---
 rigid_body_motion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/core.py b/rigid_body_motion/core.py
index 2e79073..00589a2 100644
--- a/rigid_body_motion/core.py
+++ b/rigid_body_motion/core.py
@@ -884,7 +884,7 @@ def _estimate_linear_velocity(
 
     if outlier_thresh is not None:
         axis = axis % linear.ndim
-        dt = np.moveaxis(translation, (time_axis, axis), (0, -1))
+        dt = np.moveaxis(translation, (time_axis, axis), (0, -1)).astype(float)
         dt = np.linalg.norm(np.diff(dt, n=2, axis=0), axis=-1)
         linear = np.moveaxis(
             _suppress_outliers(
-- 
2.43.0


From 12a3850d907728f919baf90e62aaa5828f65eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:18 +0000
Subject: [PATCH 65/67] fix: messages arriving while a subscribed transform
 broadcaster is being created raise

---
 rigid_body_motion/ros/transformer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rigid_body_motion/ros/transformer.py b/rigid_body_motion/ros/transformer.py
index 3a5b793..e47b2a8 100644
--- a/rigid_body_motion/ros/transformer.py
+++ b/rigid_body_motion/ros/transformer.py
@@ -421,21 +421,22 @@ class ReferenceFrameTransformBroadcaster:
         else:
             self.twist_publisher = None
 
+        self.idx = 0
+        self.stopped = False
+        self._thread = None
+
         if subscribe:
-            self.subscriber = rospy.Subscriber(
-                "/tf", tfMessage, self.handle_incoming_msg
-            )
             if isinstance(subscribe, str):
                 self.subscribe_to_frame = subscribe
             else:
                 self.subscribe_to_frame = self.base.name
+            # messages can arrive as soon as the subscriber has been created
+            self.subscriber = rospy.Subscriber(
+                "/tf", tfMessage, self.handle_incoming_msg
+            )
         else:
             self.subscriber = None
 
-        self.idx = 0
-        self.stopped = False
-        self._thread = None
-
     def publish(self, idx=None):
         """Publish a transform message.
 
-- 
2.43.0


From f30e2d2deea4648b46eca2d875f50a206c1a8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:54 +0000
Subject: [PATCH 66/67] fix: check_install crashes with a NameError when rospkg
 is not installed

---
 rigid_body_motion/ros/check_install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigid_body_motion/ros/check_install.py b/rigid_body_motion/ros/check_install.py
index af8b6e0..8a2a4e1 100644
--- a/rigid_body_motion/ros/check_install.py
+++ b/rigid_body_motion/ros/check_install.py
@@ -4,12 +4,12 @@ if __name__ == "__main__":
 
     try:
         import geometry_msgs.msg  # noqa
+        import rospkg  # noqa
         import rospy  # noqa
         import std_msgs.msg  # noqa
         import visualization_msgs.msg  # noqa
 
         try:
-            import rospkg  # noqa
             import tf2_geometry_msgs  # noqa
             import tf2_ros  # noqa
             from tf.msg import tfMessage  # noqa
-- 
2.43.0


From 8d025273e8de10a04743c57b84f960e30a62c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:22 +0000
Subject: [PATCH 67/67] fix: make_test_motion fails for sampling rates like 3,
 120 or 20000 Hz

---
 rigid_body_motion/testing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rigid_body_motion/testing.py b/rigid_body_motion/testing.py
index bba9df0..a1a9ab8 100644
--- a/rigid_body_motion/testing.py
+++ b/rigid_body_motion/testing.py
@@ -42,6 +42,8 @@ def make_test_motion(
             as_quat_array(rotation), np.array(offset)[np.newaxis, :]
         )
 
-    timestamps = pd.date_range(start=0, periods=n_samples, freq=f"{1/fs}S")
+    timestamps = pd.date_range(
+        start=0, periods=n_samples, freq=pd.Timedelta(1 / fs, unit="s")
+    )
 
     return translation, rotation, timestamps
-- 
2.43.0

