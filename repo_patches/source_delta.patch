From 2e9f1b89e3a8d485172570486deb93144122447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 01/52] fix: copies of involute, octoid and transformed curves
 no longer read the original

---
 src/gggears/curve.py | 89 +++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 39 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index be34d3c..e4c654a 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1333,10 +1333,9 @@ class InvoluteCurve(Curve):
         self.angle = angle
         self.v_offs = v_offs
         self.z_offs = z_offs
+        # bound method: a deepcopy of the curve uses the parameters of the copy
         super().__init__(
-            lambda t: involute_circle(
-                t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
-            ),
+            self.involute_func,
             active=active,
             t0=t0,
             t1=t1,
@@ -1344,6 +1343,11 @@ class InvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_circle(
+            t, r=self.r, angle=self.angle, v_offs=self.v_offs, z_offs=self.z_offs
+        )
+
     @property
     def base_radius(self):
         return self.r
@@ -1370,14 +1374,7 @@ class SphericalInvoluteCurve(Curve):
         self.v_offs = v_offs
         self.z_offs = z_offs
         super().__init__(
-            lambda t: involute_sphere(
-                t,
-                r=self.r,
-                C=self.c_sphere,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.involute_func,
             active,
             t0,
             t1,
@@ -1385,6 +1382,16 @@ class SphericalInvoluteCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def involute_func(self, t):
+        return involute_sphere(
+            t,
+            r=self.r,
+            C=self.c_sphere,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1426,21 +1433,24 @@ class OctoidCurve(Curve):
         self.z_offs = z_offs
         self.alpha = alpha
         super().__init__(
-            lambda t: octoid(
-                t,
-                base_rad=self.r,
-                sphere_rad=1 / self.c_sphere,
-                alpha=self.alpha,
-                angle=self.angle,
-                v_offs=self.v_offs,
-                z_offs=self.z_offs,
-            ),
+            self.octoid_func,
             active,
             t0,
             t1,
             enable_vectorize=enable_vectorize,
         )
 
+    def octoid_func(self, t):
+        return octoid(
+            t,
+            base_rad=self.r,
+            sphere_rad=1 / self.c_sphere,
+            alpha=self.alpha,
+            angle=self.angle,
+            v_offs=self.v_offs,
+            z_offs=self.z_offs,
+        )
+
     @property
     def center(self):
         return (
@@ -1476,7 +1486,7 @@ class TransformedCurve(Curve):
         self.transform_method = transform
 
         super().__init__(
-            lambda t: self.apply_transform(self.target_curve(t)),
+            self.transformed_func,
             active=self.target_curve.active,
             t0=0,
             t1=1,
@@ -1484,6 +1494,9 @@ class TransformedCurve(Curve):
             enable_vectorize=enable_vectorize,
         )
 
+    def transformed_func(self, t, **params):
+        return self.transform_method(self.target_curve(t), **params)
+
     def apply_transform(self, point):
         return self.transform_method(point, **self.params)
 
@@ -1495,19 +1508,19 @@ class MirroredCurve(TransformedCurve):
         self.plane_normal = normalize_vector(plane_normal)
         self.center = center
 
-        def mirror_func(p):
-            p2 = p - self.center
-            h = np.dot(p2, self.plane_normal)
-            if hasattr(h, "__iter__"):
-                return (
-                    p2
-                    - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
-                    + self.center
-                )
-            else:
-                return p2 - 2 * h * self.plane_normal + self.center
+        super().__init__(self.mirror_func, curve)
 
-        super().__init__(mirror_func, curve)
+    def mirror_func(self, p):
+        p2 = p - self.center
+        h = np.dot(p2, self.plane_normal)
+        if hasattr(h, "__iter__"):
+            return (
+                p2
+                - 2 * h[:, np.newaxis] * self.plane_normal[np.newaxis, :]
+                + self.center
+            )
+        else:
+            return p2 - 2 * h * self.plane_normal + self.center
 
 
 class RotatedCurve(TransformedCurve):
@@ -1518,13 +1531,11 @@ class RotatedCurve(TransformedCurve):
         self.angle = angle
         self.center = center
 
-        def rotate_func(p):
-            p2 = p - self.center
-            return (
-                scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
-            )
+        super().__init__(self.rotate_func, curve)
 
-        super().__init__(rotate_func, curve)
+    def rotate_func(self, p):
+        p2 = p - self.center
+        return scp_Rotation.from_rotvec(self.angle * self.axis).apply(p2) + self.center
 
 
 class NurbCurve(Curve):
-- 
2.43.0


From b9cf6552f9bd02267906aac7b00c8384b8e5cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 02/52] fix: dividing a curve by a scalar keeps its current
 extent

---
 src/gggears/curve.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index e4c654a..de8dcf3 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -322,12 +322,16 @@ class Curve:
     def __truediv__(self, other):
         """Divide the curve by a scalar. Output vectors are divided."""
         if isinstance(other, (int, float)):
+
+            def div_func(t, curve=self, val=other):
+                return curve(t) / val
+
             return Curve(
-                lambda t: self(t) / other,
+                div_func,
                 active=self.active,
-                t0=self.t_0,
-                t1=self.t_1,
-                params={},
+                t0=0,
+                t1=1,
+                params={"curve": self, "val": other},
                 enable_vectorize=self.enable_vectorize,
             )
         else:
-- 
2.43.0


From 890ef4f7dd7356091571a227748ac0119a6e1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 03/52] fix: higher order curve derivatives

---
 src/gggears/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index de8dcf3..93b27b3 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -234,7 +234,10 @@ class Curve:
             return numeric_diff(self, t, direction, delta)
         else:
             return numeric_diff(
-                self.derivative(t, direction, n - 1, delta), t, direction, delta
+                lambda x: self.derivative(x, direction, n - 1, delta),
+                t,
+                direction,
+                delta,
             )
 
     def cut(self, t):
-- 
2.43.0


From 7b9a389126d9331acea45236e649d9d2fd288882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 04/52] fix: curve parametrisation after reversing, trimming
 and editing chains

---
 src/gggears/curve.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 93b27b3..3d75bda 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -201,6 +201,7 @@ class Curve:
         """Reverse the curve in place."""
         self.t_0, self.t_1 = self.t_1, self.t_0
         self.t2s_lookup["t"] = np.flip(self.t2s_lookup["t"])
+        self.t2s_lookup["s"] = 1 - np.flip(self.t2s_lookup["s"])
         return self
 
     def derivative(self, t, direction=0, n=1, delta=DELTA):
@@ -509,9 +510,11 @@ class CurveChain(Curve):
 
     def __setitem__(self, index, value):
         self.curves[index] = value
+        self.update_lengths()
 
     def __delitem__(self, index):
-        self.curves[index] = []
+        del self.curves[index]
+        self.update_lengths()
 
     def __iter__(self):
         return iter(self.curves)
@@ -550,6 +553,7 @@ class CurveChain(Curve):
         self.curves.reverse()
         for curve in self.curves:
             curve.reverse()
+        return self
 
     def set_start_and_end_on(self, s0, s1, preserve_inactive_curves=False):
         """Set the start and end of the chain in length-proportional parameter s.
@@ -565,23 +569,22 @@ class CurveChain(Curve):
             the chain, with active=False status.
             If False, curves outside of the range get removed.
         """
-        idx, s2 = self.get_s_index(s0)
-        if preserve_inactive_curves:
-            for curve in self.curves[:idx]:
-                curve.active = False
-            self.curves[idx].set_start_on(s2)
+        # both locations refer to the chain before trimming
+        idx0, s2_0 = self.get_s_index(s0)
+        idx1, s2_1 = self.get_s_index(s1)
+        if idx0 == idx1:
+            self.curves[idx0].set_start_and_end_on(s2_0, s2_1)
         else:
-            self.curves = self.curves[idx:]
-            self.curves[0].set_start_on(s2)
+            self.curves[idx0].set_start_on(s2_0)
+            self.curves[idx1].set_end_on(s2_1)
 
-        idx, s2 = self.get_s_index(s1)
         if preserve_inactive_curves:
-            for curve in self.curves[idx + 1 :]:
+            for curve in self.curves[:idx0]:
+                curve.active = False
+            for curve in self.curves[idx1 + 1 :]:
                 curve.active = False
-            self.curves[idx].set_end_on(s2)
         else:
-            self.curves = self.curves[: idx + 1]
-            self.curves[-1].set_end_on(s2)
+            self.curves = self.curves[idx0 : idx1 + 1]
         self.update_lengths()
 
     def set_start_on(self, s0, preserve_inactive_curves=False):
@@ -1562,6 +1565,8 @@ class NurbCurve(Curve):
     def reverse(self):
         self.points = np.flip(self.points, axis=0)
         self.weights = np.flip(self.weights, axis=0)
+        if self.active:
+            self.update_lengths()
         return self
 
     @property
@@ -1570,6 +1575,8 @@ class NurbCurve(Curve):
 
     def apply_transform(self, transform):
         self.points = transform(self.points)
+        if self.active:
+            self.update_lengths()
         return self
 
 
-- 
2.43.0


From 12b928e5a2c587bc0dfd39bae6459ff99ee5c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 05/52] fix: arc length follows trimming, radius and direction

---
 src/gggears/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 3d75bda..6736b65 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1146,7 +1146,7 @@ class ArcCurve(Curve):
         return points
 
     def update_lengths(self):
-        self.length = self.radius * self.angle
+        self.length = np.abs(self.radius * self.angle * (self.t_1 - self.t_0))
         self.t2s_lookup["s"] = np.array([0, 1])
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
@@ -1157,6 +1157,7 @@ class ArcCurve(Curve):
     @radius.setter
     def radius(self, value):
         self._radius = value
+        self.update_lengths()
 
     @property
     def r(self):
-- 
2.43.0


From a5eea1ebc09cf3d473796698f406883149d42646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 06/52] fix: transforming a trimmed line or arc keeps the
 trimming

---
 src/gggears/curve.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 6736b65..c6ce788 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1108,8 +1108,8 @@ class LineCurve(Curve):
         self.t2s_lookup["t"] = np.array([self.t_0, self.t_1])
 
     def transform(self, transform: callable) -> "LineCurve":
-        p0 = transform(self.p0)
-        p1 = transform(self.p1)
+        p0 = transform(self(0))
+        p1 = transform(self(1))
         return LineCurve(p0, p1, active=self.active)
 
 
@@ -1321,8 +1321,9 @@ class ArcCurve(Curve):
         center0 = transform(self._center)
         center2 = transform(self.center + self.axis)
         axis2 = normalize_vector(center2 - center0)
+        angle = self.angle * (self.t_1 - self.t_0)
         return ArcCurve.from_point_center_angle(
-            p0, center0, self.angle, axis2, active=self.active
+            p0, center0, angle, axis2, active=self.active
         )
 
 
-- 
2.43.0


From d3929ab129f2191fc853ef82b086b5f1aa0a1c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:10 +0000
Subject: [PATCH 07/52] fix: NURBS conversion keeps its input and the extent of
 transformed curves

---
 src/gggears/curve.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index c6ce788..8b772b6 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -931,11 +931,18 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
 
     else:
         if isinstance(input_curve, NurbCurve):
-            return input_curve
+            # the result is transformed in place by callers, the input is not
+            return input_curve.copy()
         elif isinstance(input_curve, TransformedCurve):
-            transform = input_curve.transform_method
-            convert = convert_curve_nurbezier(input_curve.target_curve, **kwargs)
-            convert.apply_transform(transform)
+            target = input_curve.target_curve.copy()
+            t_0, t_1 = input_curve.t_0, input_curve.t_1
+            if t_0 > t_1:
+                target.reverse()
+                t_0, t_1 = 1 - t_0, 1 - t_1
+            if t_0 != 0 or t_1 != 1:
+                target.set_start_and_end_on(t_0, t_1)
+            convert = convert_curve_nurbezier(target, **kwargs)
+            convert.apply_transform(input_curve.apply_transform)
             return convert
         elif isinstance(input_curve, LineCurve):
             bz_points = np.array([input_curve(0), input_curve(1)])
-- 
2.43.0


From 77c652ee57630b985c3ab9137a639b00e3d93581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:26 +0000
Subject: [PATCH 08/52] fix: reversing a trimmed NURB curve

---
 src/gggears/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 8b772b6..dd426fa 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1574,6 +1574,7 @@ class NurbCurve(Curve):
     def reverse(self):
         self.points = np.flip(self.points, axis=0)
         self.weights = np.flip(self.weights, axis=0)
+        self.t_0, self.t_1 = 1 - self.t_1, 1 - self.t_0
         if self.active:
             self.update_lengths()
         return self
-- 
2.43.0


From aa2a728874262fd04a9176dc325a9b53cce9d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:35 +0000
Subject: [PATCH 09/52] fix: gears and racks no longer share position and
 orientation arrays

---
 src/gggears/gearmath.py             |  2 +-
 src/gggears/gggears_base_classes.py |  6 ++++--
 src/gggears/gggears_core.py         |  4 ++--
 src/gggears/gggears_wrapper.py      | 31 +++++++++++++++++------------
 4 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index cf58ce7..5726122 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -338,7 +338,7 @@ def calc_mesh_orientation(
     else:
         target_dir_norm = normalize_vector(target_dir_norm)
     if gear_1_cone_angle == 0 and gear_2_cone_angle == 0:
-        return gear2.orientation
+        return gear2.orientation.copy()
     else:
         if inside_ring_2:
             angle_ref = gamma_2 - gamma_1 + offset / R
diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index a7a92d5..d0df3ac 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -58,8 +58,10 @@ class TransformData:
         Scale factor of the transformation.
     """
 
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
-    orientation: np.ndarray = dataclasses.field(default_factory=lambda: UNIT3X3)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
+    orientation: np.ndarray = dataclasses.field(
+        default_factory=lambda: UNIT3X3.copy()
+    )
     scale: float = 1.0
 
     @property
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index aa2021a..4e17137 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -968,7 +968,7 @@ class Gear:
 
     @center.setter
     def center(self, value):
-        self.transform.center = value
+        self.transform.center = np.array(value, dtype=float)
 
     @property
     def center_sphere(self):
@@ -1062,7 +1062,7 @@ class Gear:
                 distance = self.rp + other.rp
             v0 = target_dir * distance + other.transform.center
             self.transform.center = v0
-            self.transform.orientation = other.transform.orientation
+            self.transform.orientation = other.transform.orientation.copy()
             self.transform.angle = calc_mesh_angle(
                 self.transform,
                 other.transform,
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 08f7d0a..aadf73d 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -83,7 +83,8 @@ class GearInfoMixin:
 
     @center.setter
     def center(self, value):
-        self.gearcore.transform.center = value
+        # copy: the gear must not share its position with another gear
+        self.gearcore.transform.center = np.array(value, dtype=float)
 
     @property
     def center_spherical(self):
@@ -292,7 +293,7 @@ class InvoluteInputParam:
     height: float = 1.0
     helix_angle: float = 0
     cone_angle: float = 0
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
     angle: float = 0
     module: float = 1.0
     enable_undercut: bool = True
@@ -409,7 +410,7 @@ class InvoluteGear(GearInfoMixin):
             height=height,
             helix_angle=helix_angle,
             cone_angle=cone_angle,
-            center=center,
+            center=np.array(center, dtype=float),
             angle=angle,
             module=module,
             enable_undercut=enable_undercut,
@@ -585,7 +586,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=self.inputparam.center.copy(),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -702,7 +703,9 @@ class InvoluteGear(GearInfoMixin):
             )
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = (
                 calc_mesh_angle(
                     self.gearcore.transform,
@@ -717,8 +720,8 @@ class InvoluteGear(GearInfoMixin):
 
     def reset_location(self):
         """Resets the location of the gear to its original center and angle."""
-        self.gearcore.transform.center = ORIGIN
-        self.gearcore.transform.orientation = UNIT3X3
+        self.gearcore.transform.center = ORIGIN.copy()
+        self.gearcore.transform.orientation = UNIT3X3.copy()
         self.gearcore.transform.angle = 0
 
     def build_boundary_wire(self, z_ratio: float = 0):
@@ -1516,7 +1519,7 @@ class CycloidInputParam:
     height: float = 1.0
     helix_angle: float = 0
     cone_angle: float = 0
-    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN)
+    center: np.ndarray = dataclasses.field(default_factory=lambda: ORIGIN.copy())
     angle: float = 0
     module: float = 1.0
     enable_undercut: bool = True
@@ -1637,7 +1640,7 @@ class CycloidGear(GearInfoMixin):
             number_of_teeth=number_of_teeth,
             height=height,
             cone_angle=cone_angle,
-            center=center,
+            center=np.array(center, dtype=float),
             angle=angle,
             module=module,
             root_fillet=root_fillet,
@@ -1749,7 +1752,7 @@ class CycloidGear(GearInfoMixin):
                 ),
             ),
             transform=GearTransform(
-                center=self.inputparam.center,
+                center=self.inputparam.center.copy(),
                 angle=self.inputparam.angle,
                 scale=self.inputparam.module,
             ),
@@ -1846,7 +1849,9 @@ class CycloidGear(GearInfoMixin):
                 distance = self.pitch_radius + other.pitch_radius
             v0 = target_dir * distance + other.gearcore.transform.center
             self.gearcore.transform.center = v0
-            self.gearcore.transform.orientation = other.gearcore.transform.orientation
+            self.gearcore.transform.orientation = (
+                other.gearcore.transform.orientation.copy()
+            )
             self.gearcore.transform.angle = calc_mesh_angle(
                 self.gearcore.transform,
                 other.gearcore.transform,
@@ -2108,8 +2113,8 @@ class InvoluteRack:
         self.number_of_teeth = number_of_teeth
         self.height = height
         self.pressure_angle = pressure_angle
-        self.position = position
-        self.orientation = orientation
+        self.position = np.array(position, dtype=float)
+        self.orientation = np.array(orientation, dtype=float)
         self.offset = offset
         self.module = module
         self.root_fillet = root_fillet
-- 
2.43.0


From 411df83b000f8c4544ecf2d18299c798bab72bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:35 +0000
Subject: [PATCH 10/52] fix: rack reference lines have two ends and moving them
 keeps the direction constants

---
 src/gggears/gggears_base_classes.py | 12 ++++--------
 src/gggears/gggears_core.py         |  6 +++---
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index d0df3ac..c2839a8 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -428,14 +428,10 @@ class RackRefLines:
     @center.setter
     def center(self, value):
         diff = value - self.center
-        self.a_line.p0 += diff
-        self.a_line.p1 += diff
-        self.p_line.p0 += diff
-        self.p_line.p1 += diff
-        self.d_line.p0 += diff
-        self.d_line.p1 += diff
-        self.o_line.p0 += diff
-        self.o_line.p1 += diff
+        for line in (self.a_line, self.p_line, self.d_line, self.o_line):
+            # not in place: end points may be shared with other lines or constants
+            line.p0 = line.p0 + diff
+            line.p1 = line.p1 + diff
 
 
 @dataclasses.dataclass
diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 4e17137..4b2de5d 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -172,13 +172,13 @@ def generate_reference_lines(
 ) -> RackRefLines:
     pitch_line = crv.LineCurve(p0=UP, p1=DOWN)
     addendum_line = crv.LineCurve(
-        p0=UP + RIGHT * limitparam.h_a, p1=UP + RIGHT * limitparam.h_a
+        p0=UP + RIGHT * limitparam.h_a, p1=DOWN + RIGHT * limitparam.h_a
     )
     dedendum_line = crv.LineCurve(
-        p0=UP - RIGHT * limitparam.h_d, p1=UP - RIGHT * limitparam.h_d
+        p0=UP - RIGHT * limitparam.h_d, p1=DOWN - RIGHT * limitparam.h_d
     )
     outside_line = crv.LineCurve(
-        p0=UP - RIGHT * limitparam.h_o, p1=UP - RIGHT * limitparam.h_o
+        p0=UP - RIGHT * limitparam.h_o, p1=DOWN - RIGHT * limitparam.h_o
     )
 
     return RackRefLines(
-- 
2.43.0


From c4424c0f93344251a72af82c669477aac50f6ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:35 +0000
Subject: [PATCH 11/52] fix: building a boundary wire no longer rotates the
 gear

---
 src/gggears/gggears_build123d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index 2f39e56..f06e8c0 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -524,6 +524,8 @@ def generate_boundary_edges(
     if transform is None:
         # identity transform by default
         transform = GearTransform()
+    # advanced tooth by tooth below, the caller's transform is left alone
+    transform = copy.deepcopy(transform)
     nurb_profile = gearprofile_to_nurb(nurbprofile)
     # don't want to get more inputs about num of teeth, but without rounding this can
     # lose 1 tooth
-- 
2.43.0


From b87b323427cfcb642172904d54a9a6e17d912701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:35 +0000
Subject: [PATCH 12/52] fix: building a bevel gear never touches the slice
 heights of the gear

---
 src/gggears/gggears_build123d.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index f06e8c0..ef1008a 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -89,19 +89,20 @@ class GearBuilder(GearToNurbs):
         else:
             # gear construction by defining a reference solid (a blank)
             # and cutting it with the side surfaces
-            z_vals_save = copy.deepcopy(gear.z_vals)
+            gear_extended = copy.copy(gear)
+            gear_extended.z_vals = copy.deepcopy(gear.z_vals)
             zdiff = gear.z_vals[-1] - gear.z_vals[0]
             # extend z_vals by 10% to ensure cutting intersection for cutting (split op.)
-            gear.z_vals[-1] += side_surface_extension_ratio * zdiff
-            gear.z_vals[0] -= side_surface_extension_ratio * zdiff
+            gear_extended.z_vals[-1] += side_surface_extension_ratio * zdiff
+            gear_extended.z_vals[0] -= side_surface_extension_ratio * zdiff
             super().__init__(
-                gear=gear,
+                gear=gear_extended,
                 n_points_hz=n_points_hz,
                 n_points_vert=n_points_vert,
                 oversampling_ratio=oversampling_ratio,
             )
-            # restore original z_vals
-            self.gear.z_vals = z_vals_save
+            # continue with the original z_vals
+            self.gear = gear
             side_surfaces = self.gen_side_surfaces()
 
             # parameters of ref_solid depend on accurate (original) z_vals
-- 
2.43.0


From fd3a34e72e04d026d8fa95540b5a55cdf7713e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:35 +0000
Subject: [PATCH 13/52] fix: crowning is symmetric for every module and anchor

---
 src/gggears/gggears_wrapper.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index aadf73d..30c9b6e 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -496,14 +496,15 @@ class InvoluteGear(GearInfoMixin):
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
         gamma = self.inputparam.cone_angle / 2
 
+        # height of the gear teeth with module 1
+        z_h = self.inputparam.height / self.inputparam.module
+        z_anchor = self.inputparam.z_anchor
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
-            return (
-                offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
-                * self.inputparam.crowning
-                / rp_ref
-                * 1e-3
-            )
+            # relative height: 0 at the bottom, 1 at the top
+            z_rel = z / z_h + z_anchor
+            return offset - (z_rel * 2 - 1) ** 2 * crowning / rp_ref * 1e-3
 
         tooth_angle = (
             pitch_angle / 4
@@ -559,7 +560,6 @@ class InvoluteGear(GearInfoMixin):
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
                     cone_angle=self.inputparam.cone_angle,
                 )
-        z_h = self.inputparam.height / self.inputparam.module
         self.gearcore = Gear(
             tooth_param=self.update_tooth_param(),
             z_vals=np.array(
@@ -1690,14 +1690,15 @@ class CycloidGear(GearInfoMixin):
         gamma = self.inputparam.cone_angle / 2
         pitch_angle = 2 * PI / self.inputparam.number_of_teeth
 
+        # height of the gear teeth with module 1
+        z_h = self.inputparam.height / self.inputparam.module
+        z_anchor = self.inputparam.z_anchor
+        crowning = self.inputparam.crowning
+
         def crowning_func(z, offset=0):
-            return (
-                offset
-                - (z * 2 / self.inputparam.height - 1) ** 2
-                * self.inputparam.crowning
-                / rp_ref
-                * 1e-3
-            )
+            # relative height: 0 at the bottom, 1 at the top
+            z_rel = z / z_h + z_anchor
+            return offset - (z_rel * 2 - 1) ** 2 * crowning / rp_ref * 1e-3
 
         tooth_angle = pitch_angle / 4 - self.inputparam.backlash / rp_ref
         spiral_coeff = np.tan(self.inputparam.helix_angle) / rp_ref
@@ -1724,7 +1725,6 @@ class CycloidGear(GearInfoMixin):
             rc_in_coeff=self.inputparam.inside_cycloid_coefficient,
             rc_out_coeff=self.inputparam.outside_cycloid_coefficient,
         )
-        z_h = self.inputparam.height / self.inputparam.module
         self.gearcore = Gear(
             tooth_param=self.update_tooth_param(),
             z_vals=np.array(
-- 
2.43.0


From aabb7e0853e6963b10ab3a6fcefab133f1a5c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:12 +0000
Subject: [PATCH 14/52] fix: a copied gear no longer reads the tooth count of
 its original

---
 src/gggears/gggears_wrapper.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 30c9b6e..bb91d36 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -580,7 +580,7 @@ class InvoluteGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: (1 - z * 2 * np.sin(gamma) / self.number_of_teeth),
+                    scale=lambda z: (1 - z * np.sin(gamma) / rp_ref),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
@@ -1745,8 +1745,7 @@ class CycloidGear(GearInfoMixin):
                 ),
                 pitch_angle=pitch_angle,
                 transform=GearTransformRecipe(
-                    scale=lambda z: 1
-                    * (1 - z * 2 * np.sin(gamma) / self.inputparam.number_of_teeth),
+                    scale=lambda z: (1 - z * np.sin(gamma) / rp_ref),
                     center=lambda z: 1 * z * OUT * np.cos(gamma),
                     angle=angle_func,
                 ),
-- 
2.43.0


From 0667c5e4cca86bd0395d142a1dc8ef369aed4b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:12 +0000
Subject: [PATCH 15/52] fix: negative tooth count of cycloid gears

---
 src/gggears/gggears_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index bb91d36..d5847df 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1656,6 +1656,9 @@ class CycloidGear(GearInfoMixin):
             inside_teeth=inside_teeth,
             z_anchor=z_anchor,
         )
+        if self.inputparam.number_of_teeth < 0:
+            self.inputparam.number_of_teeth = -number_of_teeth
+            self.inputparam.inside_teeth = not self.inputparam.inside_teeth
         self.builder: GearBuilder = None
         self.gearcore: Gear = None
         self.calc_params()
-- 
2.43.0


From 78b029850448a42ef01048d635a51686d306eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:12 +0000
Subject: [PATCH 16/52] fix: products and inverses of transforms

---
 src/gggears/gggears_base_classes.py | 38 +++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index c2839a8..ec57251 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -98,7 +98,7 @@ class TransformData:
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return TransformData(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -148,7 +148,7 @@ class Transform(TransformData):
         """Invert the transformation."""
         inv_orient = self.orientation.transpose()
         return Transform(
-            center=-inv_orient @ self.center * self.scale,
+            center=-inv_orient @ self.center / self.scale,
             orientation=inv_orient,
             scale=1 / self.scale,
         )
@@ -188,9 +188,15 @@ class GearTransformData(TransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransformData(
-                center=self.center + self.orientation @ other.center * self.scale,
-                orientation=self.orientation @ other.orientation,
+                center=self.center
+                + self.orientation @ rot_z @ other.center * self.scale,
+                # the rotation of the angles is accounted for in the angle
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -204,8 +210,8 @@ class GearTransformData(TransformData):
         inv_orient = self.orientation.transpose()
         inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransformData(
-            center=-inv_orient @ inv_angle @ self.center * self.scale,
-            orientation=inv_orient,
+            center=-inv_angle @ inv_orient @ self.center / self.scale,
+            orientation=inv_angle @ inv_orient @ inv_angle.transpose(),
             scale=1 / self.scale,
             angle=-self.angle,
         )
@@ -229,13 +235,15 @@ class GearTransform(GearTransformData):
 
     def __mul__(self, other):
         if isinstance(other, GearTransformData):
+            rot_z = scp_Rotation.from_euler("z", self.angle).as_matrix()
             return GearTransform(
                 center=self.center
-                + self.orientation
-                @ scp_Rotation.from_euler("z", self.angle).as_matrix()
-                @ other.center
-                * self.scale,
-                orientation=self.orientation @ other.orientation,
+                + self.orientation @ rot_z @ other.center * self.scale,
+                # the rotation of the angles is accounted for in the angle
+                orientation=self.orientation
+                @ rot_z
+                @ other.orientation
+                @ rot_z.transpose(),
                 scale=self.scale * other.scale,
                 angle=self.angle + other.angle,
             )
@@ -246,11 +254,11 @@ class GearTransform(GearTransformData):
 
     def invert(self):
         """Invert the transformation."""
-        inv_orient = self.orientation
-        inv_angle = scp_Rotation.from_euler("z", self.angle).as_matrix()
+        inv_orient = self.orientation.transpose()
+        inv_angle = scp_Rotation.from_euler("z", -self.angle).as_matrix()
         return GearTransform(
-            center=-self.center @ inv_orient @ inv_angle / self.scale,
-            orientation=inv_orient.transpose(),
+            center=-inv_angle @ inv_orient @ self.center / self.scale,
+            orientation=inv_angle @ inv_orient @ inv_angle.transpose(),
             scale=1 / self.scale,
             angle=-self.angle,
         )
-- 
2.43.0


From 2c68fa6f296c41d0fe138845f27eb25471588c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 17/52] fix: spherical centre and height of placed gears

---
 src/gggears/gggears_wrapper.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index d5847df..4d28c72 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -91,8 +91,7 @@ class GearInfoMixin:
         """Center of the gear-cone for bevel gears.
 
         Spherical refers to the spherical gear-boundary curves."""
-        center_sph = self.cone_data.center / self.module
-        return self.gearcore.transform(center_sph)
+        return self.cone_data.center
 
     def center_transform_at_z(self, z) -> GearTransform:
         """Returns the transform-data that represents the center point of a gear-slice
@@ -190,11 +189,11 @@ class GearInfoMixin:
         # the height parameter is rather the width of the gear teeth,
         # which is the height for cylindrical gears but not for bevel gears
         # that is why it is reverse engineered from the shape recipe
-        z0, z1 = self.gearcore.z_vals[1], self.gearcore.z_vals[0]
+        z0, z1 = self.gearcore.z_vals[-1], self.gearcore.z_vals[0]
         c0, c1 = self.gearcore.shape_recipe.transform.center(
             z0
         ), self.gearcore.shape_recipe.transform.center(z1)
-        return np.linalg.norm((self.gearcore.transform(c0 - c1)))
+        return np.linalg.norm(c0 - c1) * self.gearcore.transform.scale
 
     def radii_data_gen(self, z) -> GearRefCircles:
         """Generates the reference circles of the gear at a given z-value."""
-- 
2.43.0


From 65ccf2a3bd2b7086ce26cfad8f458e5351ee5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 18/52] fix: height ratios span all slices

---
 src/gggears/gggears_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 4d28c72..5f44543 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -233,7 +233,7 @@ class GearInfoMixin:
         return self.radii_data_gen(self.gearcore.z_vals[-1])
 
     def proportion_to_z(self, prop):
-        return prop * self.gearcore.z_vals[1] + (1 - prop) * self.gearcore.z_vals[0]
+        return prop * self.gearcore.z_vals[-1] + (1 - prop) * self.gearcore.z_vals[0]
 
     def p2z(self, prop):
         return self.proportion_to_z(prop)
@@ -475,7 +475,7 @@ class InvoluteGear(GearInfoMixin):
             Ratio of the height of the gear where the slice should be taken.
             0 means at the bottom, 1 at the top. Default is 0.
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         r = self.gearcore.shape_recipe(z).tooth_generator.get_base_radius()
         trf = self.gearcore.transform * self.gearcore.shape_recipe(z).transform
         circle_ref = crv.ArcCurve(radius=r, center=ORIGIN, angle=2 * PI).transform(trf)
@@ -736,7 +736,7 @@ class InvoluteGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
@@ -1927,7 +1927,7 @@ class CycloidGear(GearInfoMixin):
         -------
         Wire
         """
-        z = z_ratio * self.gearcore.z_vals[1] + (1 - z_ratio) * self.gearcore.z_vals[0]
+        z = self.proportion_to_z(z_ratio)
         profile = self.gearcore.curve_gen_at_z(z)
         edges = generate_boundary_edges(profile, self.gearcore.transform)
         return bd.Wire(edges)
-- 
2.43.0


From 11b17665dff14b6c31268d1b72935e78d15a3390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 19/52] fix: meshing of core and cycloid gears uses the placed
 partner and a unit direction

---
 src/gggears/gggears_core.py    | 5 +++--
 src/gggears/gggears_wrapper.py | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 4b2de5d..7f33eae 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -1028,11 +1028,12 @@ class Gear:
         self.shape_recipe.tooth_generator = tg
 
     def mesh_to(self, other: "Gear", target_dir=RIGHT):
+        target_dir = normalize_vector(target_dir)
         if self.cone.cone_angle != 0 or other.cone.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-                self.cone,
-                other.cone,
+                self.cone_at_z(0),
+                other.cone_at_z(0),
                 self.tooth_param.inside_teeth,
                 other.tooth_param.inside_teeth,
             )
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 5f44543..d99b173 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1816,6 +1816,7 @@ class CycloidGear(GearInfoMixin):
             gear.
             Should be a unit vector. Default is RIGHT (x).
         """
+        target_dir = normalize_vector(target_dir)
         if self.cone_angle != 0 or other.cone_angle != 0:
             v0 = calc_bevel_gear_placement_vector(
                 target_dir,
-- 
2.43.0


From 527f0bd41c79d4c49f088ab80ad617e8406f6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 20/52] fix: tooth generators use the given or default limits

---
 src/gggears/gearteeth.py       | 4 ++--
 src/gggears/gggears_wrapper.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 9f55314..2d79fd3 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -140,7 +140,7 @@ class InvoluteUndercutTooth(InvoluteTooth):
         self.cone_angle = cone_angle
         self.pressure_angle = pressure_angle
         if ref_limits is None:
-            self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
+            ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
         self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
@@ -280,7 +280,7 @@ class OctoidUndercutTooth(GearToothConicGenerator):
         self.cone_angle = cone_angle
         self.pressure_angle = pressure_angle
         if ref_limits is None:
-            self.ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
+            ref_limits = ToothLimitParam(h_a=1, h_d=1.2)
         self.ref_limits = ref_limits
         self.pitch_angle = pitch_angle
 
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index d99b173..73fb16f 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -557,6 +557,7 @@ class InvoluteGear(GearInfoMixin):
                     pressure_angle=self.inputparam.pressure_angle,
                     pitch_radius=rp_ref,
                     pitch_intersect_angle=lambda z: crowning_func(z, tooth_angle),
+                    ref_limits=limits,
                     cone_angle=self.inputparam.cone_angle,
                 )
         self.gearcore = Gear(
-- 
2.43.0


From 259efc0de39c1ca23ea18f36b18ef0488173c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 21/52] fix: undercut of teeth without root connector

---
 src/gggears/gearteeth.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gggears/gearteeth.py b/src/gggears/gearteeth.py
index 2d79fd3..1af2d1b 100644
--- a/src/gggears/gearteeth.py
+++ b/src/gggears/gearteeth.py
@@ -196,7 +196,7 @@ class InvoluteUndercutTooth(InvoluteTooth):
                 return rack_curve(0)
 
     def set_default_undercut_ref_point(self):
-        self.undercut_ref_point = self.get_default_undercut_ref_point(self.ref_limits)
+        self.undercut_ref_point = self.get_default_undercut_ref_point()
         return self
 
 
@@ -548,8 +548,11 @@ def trim_involute_undercut(
             guess=guess,
             method=crv.IntersectMethod.MINDISTANCE,
         )
-    ps = tooth_curve.get_length_portions()
-    if sol.x[0] < ps[1]:
+    # a single curve has no involute-extension line
+    if (
+        isinstance(tooth_curve, crv.CurveChain)
+        and sol.x[0] < tooth_curve.get_length_portions()[1]
+    ):
         # undercut intersecting the involute-extension line is unlikely,
         # try again with a different guess
         sol = crv.find_curve_intersect(
-- 
2.43.0


From 0a55983a82d31cda83bfc1fb818990755f833bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:13 +0000
Subject: [PATCH 22/52] fix: zero curvature of spherical involutes and cycloids

---
 src/gggears/function_generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 6d3042c..63b0d69 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -157,7 +157,7 @@ def involute_sphere(t, r=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return involute_circle(t, r, angle, v_offs)
+        return involute_circle(t, r, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", angles=t + angle)
 
@@ -227,7 +227,7 @@ def cycloid_cone(t, rb=1, rc=1, C=0.5, angle=0, v_offs=ORIGIN, z_offs=0):
     z_offs: offset value applied in the z direction
     """
     if C == 0:
-        return cycloid_circle(t, r, angle, v_offs)
+        return cycloid_circle(t, rb, rc, angle, v_offs, z_offs)
     else:
         rot_z = scp_Rotation.from_euler("z", t + angle)
 
-- 
2.43.0


From 525aff1c53241413b2952f002c8e4d3865bb1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:06 +0000
Subject: [PATCH 23/52] fix: line of action lies in the plane of the gears

---
 src/gggears/gggears_wrapper.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 73fb16f..8abec26 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1974,6 +1974,12 @@ class LineOfAction:
         center1 = self.gear1.center_point_at_z(self.gear1.p2z(self.z_ratio))
         center2 = self.gear2.center_point_at_z(self.gear2.p2z(self.z_ratio))
 
+        axis = self.gear1.gearcore.transform.z_axis
+
+        def rotate_in_plane(v, angle):
+            # rotation in the plane of the gears
+            return scp_Rotation.from_rotvec(axis * angle).apply(v)
+
         def mirror_diffline(p):
             p1 = p - center1
             p_norm = p1 - np.dot(p1, diff_vector_unit) * diff_vector_unit
@@ -1986,9 +1992,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear2.addendum_radius**2 - rb2**2)
-            startpoint1 = center2 + rotate_vector(-diff_vector_unit, alpha) * rb2
+            startpoint1 = center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2
             endpoint1 = (
-                startpoint1 + rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 + rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2002,9 +2008,9 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb2 - rb1) / distance)
             len_loa = np.sqrt(self.gear1.addendum_radius**2 - rb1**2)
-            startpoint1 = center1 + rotate_vector(-diff_vector_unit, alpha) * rb1
+            startpoint1 = center1 + rotate_in_plane(-diff_vector_unit, alpha) * rb1
             endpoint1 = (
-                startpoint1 - rotate_vector(diff_vector_unit, -PI / 2 + alpha) * len_loa
+                startpoint1 - rotate_in_plane(diff_vector_unit, -PI / 2 + alpha) * len_loa
             )
             line1 = crv.LineCurve(p0=startpoint1, p1=endpoint1)
             startpoint2 = mirror_diffline(startpoint1)
@@ -2018,12 +2024,12 @@ class LineOfAction:
                 )
             alpha = np.arccos((rb1 + rb2) / distance)
             line1 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, alpha) * rb2,
             )
             line2 = crv.LineCurve(
-                p0=center1 + rotate_vector(diff_vector_unit, -alpha) * rb1,
-                p1=center2 + rotate_vector(-diff_vector_unit, -alpha) * rb2,
+                p0=center1 + rotate_in_plane(diff_vector_unit, -alpha) * rb1,
+                p1=center2 + rotate_in_plane(-diff_vector_unit, -alpha) * rb2,
             )
             return line1, line2
 
-- 
2.43.0


From a1d2a754bc9ab712878694377a35c452ba62e33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:45 +0000
Subject: [PATCH 24/52] fix: edges of trimmed, reversed and transformed curves

---
 src/gggears/curve.py             |  5 ++++-
 src/gggears/gggears_build123d.py | 12 +++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index dd426fa..8e6a372 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -930,7 +930,10 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
         return NURBSCurve(*out_curve_list)
 
     else:
-        if isinstance(input_curve, NurbCurve):
+        if isinstance(input_curve, NurbCurve) and (
+            input_curve.t_0,
+            input_curve.t_1,
+        ) == (0, 1):
             # the result is transformed in place by callers, the input is not
             return input_curve.copy()
         elif isinstance(input_curve, TransformedCurve):
diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index ef1008a..bc56de7 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -553,7 +553,9 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
     """Converts a gggears ArcCurve to a build123d Edge object."""
     if (arc.t_0, arc.t_1) != (0, 1):
         # arc can be extended, better make a new one
-        arc2 = crv.ArcCurve.from_2_point_center(arc.p0, arc.p1, arc.center)
+        arc2 = crv.ArcCurve.from_point_center_angle(
+            arc(0), arc.center, arc.angle * (arc.t_1 - arc.t_0), arc.axis
+        )
     else:
         arc2 = arc
 
@@ -581,22 +583,18 @@ def arc_to_b123d(arc: crv.ArcCurve) -> bd.Edge:
 
 def line_to_b123d(line: crv.LineCurve) -> bd.Edge:
     """Converts a gggears LineCurve to a build123d Edge object."""
-    return bd.Edge.make_line(np2v(line.p0), np2v(line.p1))
+    return bd.Edge.make_line(np2v(line(0)), np2v(line(1)))
 
 
 def curve_to_edges(curve: crv.Curve):
     if isinstance(curve, crv.CurveChain):
         return [curve_to_edges(curve) for curve in curve.get_curves()]
-    elif isinstance(curve, crv.NURBSCurve) | isinstance(curve, crv.NurbCurve):
+    elif isinstance(curve, crv.NURBSCurve):
         return gen_splines(curve)
     elif isinstance(curve, crv.ArcCurve):
         return [arc_to_b123d(curve)]
     elif isinstance(curve, crv.LineCurve):
         return [line_to_b123d(curve)]
-    elif isinstance(curve, crv.TransformedCurve):
-        nurb = crv.convert_curve_nurbezier(curve.target_curve)
-        nurb.apply_transform(curve.transform_method)
-        return gen_splines(nurb)
     else:
         nurb = crv.convert_curve_nurbezier(curve)
         return gen_splines(nurb)
-- 
2.43.0


From 85e03e03d554ce77bf8ad9cc8766a46020497d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:45 +0000
Subject: [PATCH 25/52] fix: subclasses accept the mesh and build options of
 their base

---
 src/gggears/gggears_wrapper.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 8abec26..c94d2b6 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1166,9 +1166,11 @@ class HelicalGear(InvoluteGear):
         """Beta = helix angle of the gear."""
         return self.helix_angle
 
-    def mesh_to(self, other, target_dir=RIGHT):
+    def mesh_to(self, other, target_dir=RIGHT, backlash=0.0, angle_bias=0.0):
         # basic meshing
-        super().mesh_to(other, target_dir)
+        super().mesh_to(
+            other, target_dir, backlash=backlash, angle_bias=angle_bias
+        )
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
         angle_axis = self.beta + other.beta
@@ -1329,8 +1331,10 @@ class HelicalRingGear(InvoluteGear):
         """:no-index:"""
         return GearToothParam(self.inputparam.number_of_teeth, inside_teeth=True)
 
-    def build_part(self, n_vert=None) -> Part:
+    def build_part(self, n_vert=None, n_points_hz=None) -> Part:
         """:no-index:"""
+        if n_points_hz is None:
+            n_points_hz = 4
         if n_vert is None:
             z_samples = np.linspace(
                 self.gearcore.z_vals[0], self.gearcore.z_vals[1], 20
@@ -1350,7 +1354,7 @@ class HelicalRingGear(InvoluteGear):
                 n_vert = 5
         self.builder = GearBuilder(
             self.gearcore,
-            n_points_hz=4,
+            n_points_hz=n_points_hz,
             n_points_vert=n_vert,
         )
         return self.builder.part_transformed
@@ -1760,12 +1764,14 @@ class CycloidGear(GearInfoMixin):
             ),
         )
 
-    def build_part(self, n_vert=None) -> Part:
+    def build_part(self, n_vert=None, n_points_hz=None) -> Part:
         """Creates the build123d Part object of the gear. This may take several seconds.
 
         Returns
         -------
         Part"""
+        if n_points_hz is None:
+            n_points_hz = 4
         if n_vert is None:
             z_samples = np.linspace(
                 self.gearcore.z_vals[0], self.gearcore.z_vals[1], 20
@@ -1790,7 +1796,7 @@ class CycloidGear(GearInfoMixin):
                 n_vert = 3
         self.builder = GearBuilder(
             self.gearcore,
-            n_points_hz=4,
+            n_points_hz=n_points_hz,
             n_points_vert=n_vert,
         )
         return self.builder.part_transformed
-- 
2.43.0


From f05cc1f0788a9bd8c3fb853233352dbf1e1797d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:45 +0000
Subject: [PATCH 26/52] fix: helical gear meshing with a helical ring

---
 src/gggears/gggears_wrapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index c94d2b6..4fc9f39 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1173,7 +1173,11 @@ class HelicalGear(InvoluteGear):
         )
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
-        angle_axis = self.beta + other.beta
+        if self.inside_teeth or other.inside_teeth:
+            # teeth of a gear and its ring lean the same way
+            angle_axis = self.beta - other.beta
+        else:
+            angle_axis = self.beta + other.beta
         rot = scp_Rotation.from_rotvec(rot_axis * angle_axis)
         self.gearcore.transform.orientation = (
             rot.as_matrix() @ self.gearcore.transform.orientation
-- 
2.43.0


From 19b259226a608e13ee061b7353e8f6b657703680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:45 +0000
Subject: [PATCH 27/52] fix: module and cycloid coefficient setters take effect

---
 src/gggears/gggears_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 4fc9f39..ea42c79 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -51,6 +51,7 @@ class GearInfoMixin:
     @module.setter
     def module(self, value):
         self.gearcore.module = value
+        self.gearcore.transform.scale = value
 
     @property
     def cone_data(self):
@@ -1678,6 +1679,7 @@ class CycloidGear(GearInfoMixin):
     @inside_cycloid_coefficient.setter
     def inside_cycloid_coefficient(self, value):
         self.inputparam.inside_cycloid_coefficient = value
+        self.gearcore.shape_recipe.tooth_generator.rc_in_coeff = value
 
     @property
     def outside_cycloid_coefficient(self):
@@ -1686,6 +1688,7 @@ class CycloidGear(GearInfoMixin):
     @outside_cycloid_coefficient.setter
     def outside_cycloid_coefficient(self, value):
         self.inputparam.outside_cycloid_coefficient = value
+        self.gearcore.shape_recipe.tooth_generator.rc_out_coeff = value
 
     def update_tooth_param(self):
         """Updates the tooth parameters for the gear. (pitch angle calculated here)"""
-- 
2.43.0


From d29f96a641c98a52245eed3b6a1881df289e816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:45 +0000
Subject: [PATCH 28/52] fix: validity of a solid is a property

---
 src/gggears/gggears_build123d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_build123d.py b/src/gggears/gggears_build123d.py
index bc56de7..e1335a7 100644
--- a/src/gggears/gggears_build123d.py
+++ b/src/gggears/gggears_build123d.py
@@ -472,7 +472,7 @@ def apply_animation(gear: gg.Gear, part: bd.Part, time: float = 1):
 
 
 def fix_attempt(solid):
-    if not solid.is_valid():
+    if not solid.is_valid:
         warnings.warn("Invalid solid found", RuntimeWarning, stacklevel=2)
         solid = solid.fix()
     return solid
-- 
2.43.0


From 197ee01d42b941085c074efc2430fd2c945a5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 29/52] fix: GUI export uses the build123d exporters

---
 gui/gggui.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gui/gggui.py b/gui/gggui.py
index 8b936f7..c307040 100644
--- a/gui/gggui.py
+++ b/gui/gggui.py
@@ -381,11 +381,11 @@ class MainWindow(QMainWindow):
         )
         if self.geargen_finished[0]:
             if "STEP" in chosen_filter:
-                gg.export_step(self.gearparts[0], name)
+                bd.export_step(self.gearparts[0], name)
             elif "STL" in chosen_filter:
-                gg.export_stl(self.gearparts[0], name)
+                bd.export_stl(self.gearparts[0], name)
             elif "GLTF" in chosen_filter:
-                gg.export_gltf(self.gearparts[0], name)
+                bd.export_gltf(self.gearparts[0], name)
 
     def file_save_2(self):
         name, chosen_filter = QFileDialog.getSaveFileName(
@@ -395,11 +395,11 @@ class MainWindow(QMainWindow):
         )
         if self.geargen_finished[1]:
             if "STEP" in chosen_filter:
-                gg.export_step(self.gearparts[1], name)
+                bd.export_step(self.gearparts[1], name)
             elif "STL" in chosen_filter:
-                gg.export_stl(self.gearparts[1], name)
+                bd.export_stl(self.gearparts[1], name)
             elif "GLTF" in chosen_filter:
-                gg.export_gltf(self.gearparts[1], name)
+                bd.export_gltf(self.gearparts[1], name)
 
 
 ocp_view_process = subprocess.Popen(
-- 
2.43.0


From e131381b1d75073ede4f4f7171e1fabc56714913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 30/52] fix: GUI vector inputs and cycloid cone angle input

---
 gui/gggui.py                   | 10 ++++++++--
 src/gggears/gggears_wrapper.py |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/gui/gggui.py b/gui/gggui.py
index c307040..bae3ed3 100644
--- a/gui/gggui.py
+++ b/gui/gggui.py
@@ -88,7 +88,9 @@ class InputArgPanel(QWidget):
                     box = QDoubleSpinBox()
                     box.setValue(value[i])
                     box.valueChanged.connect(
-                        lambda val, k=key, idx=i: self.update_dict(k[idx], val)
+                        lambda val, k=key, idx=i: self.update_dict_item(
+                            k, idx, val
+                        )
                     )
                     layout_loc.addWidget(box)
                 input_widget = QWidget()
@@ -140,12 +142,16 @@ class InputArgPanel(QWidget):
     def update_dict(self, key, value):
         self.dictionary[key] = value
 
+    def update_dict_item(self, key, idx, value):
+        self.dictionary[key][idx] = value
+
     def init_dict(self):
         dictionary = {}
         for key in self.signature.parameters.keys():
             value = self.signature.parameters[key].default
             if isinstance(value, Iterable):
-                dictionary[key] = value
+                # copy: the default value itself must not be edited
+                dictionary[key] = np.array(value, dtype=float)
             elif value != inspect.Parameter.empty:
                 dictionary[key] = value
             else:
diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index ea42c79..e20ee5c 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1628,7 +1628,7 @@ class CycloidGear(GearInfoMixin):
         self,
         number_of_teeth: int,
         height: float = 1.0,
-        cone_angle=0,
+        cone_angle: float = 0,
         center: np.ndarray = ORIGIN,
         angle: float = 0,
         module: float = 1.0,
-- 
2.43.0


From 8fc8a43b8846fd1fc2dcae2cedff3c0cbdcb41cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 31/52] fix: closed tooth profiles are connected

---
 src/gggears/gggears_core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 7f33eae..693aae9 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -411,7 +411,7 @@ class GearRefProfileExtended(GearRefProfile):
             ),
             self.rd_curve,
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_connector.copy().reverse(),
         )
 
     @property
@@ -420,11 +420,11 @@ class GearRefProfileExtended(GearRefProfile):
         inside) ring."""
         return crv.CurveChain(
             self.tooth_curve,
-            self.ra_connector,
+            self.ra_curve,
             self.tooth_curve_mirror,
-            self.ro_connector_2,
+            self.ro_connector_2.copy().reverse(),
             self.ro_curve_tooth.copy().reverse(),
-            self.ro_connector_1.copy().reverse(),
+            self.ro_connector_1,
         )
 
     @classmethod
-- 
2.43.0


From b6862a95e69471f350fd4368824320ea0e2dae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 32/52] fix: continuous gear boundary follows the transform of
 its slice

---
 src/gggears/gggears_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index 693aae9..a05bd2c 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -780,7 +780,7 @@ def generate_boundary(profile: GearRefProfile, toothdata: GearToothParam) -> crv
     def loc_func(t, curve=profile.profile):
         i = t * toothdata.num_teeth_act // 1
         t2 = t * toothdata.num_teeth_act % 1
-        return (
+        return profile.transform(
             curve(t2)
             @ scp_Rotation.from_euler("z", i * toothdata.pitch_angle).as_matrix().T
         )
-- 
2.43.0


From 678d6250c4d9c7e3899c7a1647834cf13ccc821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 33/52] fix: a failed rack build keeps the previous part

---
 src/gggears/gggears_wrapper.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index e20ee5c..720b44e 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2220,26 +2220,28 @@ class InvoluteRack:
         locs = bd.GridLocations(0, pitch, 1, self.number_of_teeth)
 
         # Create the rack 3D part
-        self.part = bd.extrude(
+        part = bd.extrude(
             bd.Face.fuse(*(loc_shift * locs * tooth_face)),
             dir=extrude_dir,
             amount=self.height / self.module / np.cos(self.beta_angle),
         )
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        part_transformed = part.translate(self.offset * UP * pitch)
+        part_transformed = part_transformed.scale(self.module)
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
-        self.part_transformed = (
+        part_transformed = (
             bd.Rotation(
                 Z=degrees[2], Y=degrees[1], X=degrees[0], ordering=bd.Extrinsic.ZYX
             )
-            * self.part_transformed
+            * part_transformed
         )
-        self.part_transformed = bd.Part(self.part_transformed.translate(self.position))
+        part_transformed = bd.Part(part_transformed.translate(self.position))
 
-        return self.part_transformed
+        self.part = part
+        self.part_transformed = part_transformed
+        return part_transformed
 
     def mesh_to(
         self, gear: "InvoluteGear", target_dir: np.ndarray = RIGHT, offset: float = 0
@@ -2404,7 +2406,7 @@ class HelicalRack(InvoluteRack):
 
         if not self.herringbone:
             # Create the rack 3D part
-            self.part = bd.extrude(
+            part = bd.extrude(
                 bd.Face.fuse(*(loc_shift * locs * tooth_face)),
                 dir=extrude_dir,
                 amount=self.height / self.module / np.cos(self.beta_angle),
@@ -2427,19 +2429,21 @@ class HelicalRack(InvoluteRack):
                 / self.module
                 / np.cos(self.beta_angle),
             )
-            self.part = bd.Part(bd.Part() + part0.fuse(part1))
+            part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        self.part_transformed = self.part.translate(self.offset * UP * pitch)
-        self.part_transformed = self.part_transformed.scale(self.module)
+        part_transformed = part.translate(self.offset * UP * pitch)
+        part_transformed = part_transformed.scale(self.module)
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
-        self.part_transformed = (
+        part_transformed = (
             bd.Rotation(
                 Z=degrees[2], Y=degrees[1], X=degrees[0], ordering=bd.Extrinsic.ZYX
             )
-            * self.part_transformed
+            * part_transformed
         )
-        self.part_transformed = self.part_transformed.translate(self.position)
+        part_transformed = part_transformed.translate(self.position)
 
-        return self.part_transformed
+        self.part = part
+        self.part_transformed = part_transformed
+        return part_transformed
-- 
2.43.0


From ee1ebacc2c250b82071937c5b0f5a1b6866046c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:22 +0000
Subject: [PATCH 34/52] fix: octoid curves follow their axial offset

---
 src/gggears/function_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gggears/function_generators.py b/src/gggears/function_generators.py
index 63b0d69..fd1dc30 100644
--- a/src/gggears/function_generators.py
+++ b/src/gggears/function_generators.py
@@ -676,4 +676,4 @@ def octoid(
     rot = scp_Rotation.from_euler("yz", angles=[PI, PI / 2 + angle])
     zshift = np.sqrt(sphere_rad**2 - base_rad**2)
     v = rot.apply(v)
-    return v + zshift * OUT
+    return v + (zshift + z_offs) * OUT
-- 
2.43.0


From 47d78f526005b6cfed08e709394c64a0dbc48e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:56 +0000
Subject: [PATCH 35/52] fix: scale the rack offset with the module

build123d scales a shape about its own location, so an offset applied
before scaling was not multiplied by the module and a rack of module
other than 1 ended out of phase after mesh_to.
---
 src/gggears/gggears_wrapper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 720b44e..4cdb978 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -2227,8 +2227,11 @@ class InvoluteRack:
         )
 
         # Apply transformations to position, orient and scale the rack
-        part_transformed = part.translate(self.offset * UP * pitch)
-        part_transformed = part_transformed.scale(self.module)
+        # scale first: a shape is scaled about its own location, not the origin
+        part_transformed = part.scale(self.module)
+        part_transformed = part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         part_transformed = (
@@ -2432,8 +2435,11 @@ class HelicalRack(InvoluteRack):
             part = bd.Part(bd.Part() + part0.fuse(part1))
 
         # Apply transformations to position, orient and scale the rack
-        part_transformed = part.translate(self.offset * UP * pitch)
-        part_transformed = part_transformed.scale(self.module)
+        # scale first: a shape is scaled about its own location, not the origin
+        part_transformed = part.scale(self.module)
+        part_transformed = part_transformed.translate(
+            self.offset * UP * pitch * self.module
+        )
         rot1 = scp_Rotation.from_matrix(self.orientation)
         degrees = rot1.as_euler("zyx", degrees=True)
         part_transformed = (
-- 
2.43.0


From de06f840deb3e5dad3b6aeb457cbfcc63d0836eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:34 +0000
Subject: [PATCH 36/52] fix: product of a plain and a gear transform keeps the
 rotation angle

---
 src/gggears/gggears_base_classes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gggears/gggears_base_classes.py b/src/gggears/gggears_base_classes.py
index ec57251..aa1f3db 100644
--- a/src/gggears/gggears_base_classes.py
+++ b/src/gggears/gggears_base_classes.py
@@ -83,7 +83,10 @@ class TransformData:
         )
 
     def __mul__(self, other):
-        if isinstance(other, TransformData):
+        if isinstance(other, GearTransformData):
+            # keep the rotation angle of the other transform
+            return GearTransformData(self.center, self.orientation, self.scale) * other
+        elif isinstance(other, TransformData):
             return TransformData(
                 center=self.center + self.orientation @ other.center * self.scale,
                 orientation=self.orientation @ other.orientation,
@@ -133,7 +136,10 @@ class Transform(TransformData):
         return apply_transform(points, self)
 
     def __mul__(self, other):
-        if isinstance(other, TransformData):
+        if isinstance(other, GearTransformData):
+            # keep the rotation angle of the other transform
+            return GearTransform(self.center, self.orientation, self.scale) * other
+        elif isinstance(other, TransformData):
             return Transform(
                 center=self.center + self.orientation @ other.center * self.scale,
                 orientation=self.orientation @ other.orientation,
-- 
2.43.0


From 9a2f10bfa6c1a22f3d9a7eb417af475f0cb58b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:31 +0000
Subject: [PATCH 37/52] fix: a copied core gear no longer reads the reference
 curve of its original

---
 src/gggears/gggears_core.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/gggears/gggears_core.py b/src/gggears/gggears_core.py
index a05bd2c..67fbd57 100644
--- a/src/gggears/gggears_core.py
+++ b/src/gggears/gggears_core.py
@@ -20,6 +20,7 @@ from scipy.optimize import minimize
 from scipy.optimize import OptimizeResult
 import dataclasses
 import copy
+import functools
 from typing import Callable
 
 
@@ -860,36 +861,44 @@ def gear_recipe_from_curve(
     rp_ref = teeth_data.num_teeth / 2
     pitch_angle = 2 * PI / teeth_data.num_teeth
 
-    def centerfunc(z):
+    # the reference curve is bound with partial instead of captured, so that
+    # a deepcopy of the recipe uses its own copy of the curve
+    def centerfunc(z, ref_curve):
         return ref_curve_2_param(ref_curve_scaling_function(z), ref_curve).center
 
-    def gammafunc(z):
+    def gammafunc(z, ref_curve):
         gamma_val = ref_curve_2_param(ref_curve_scaling_function(z), ref_curve).gamma
         if gamma_rounding == 0:
             return gamma_val
         else:
             return np.round(gamma_val / gamma_rounding) * gamma_rounding
 
-    def anglefunc(z):
+    def coneanglefunc(z, ref_curve):
+        return gammafunc(z, ref_curve) * 2
+
+    def anglefunc(z, ref_curve):
         return ref_curve_2_param(ref_curve_scaling_function(z), ref_curve).angle
 
-    def scalefunc(z):
+    def scalefunc(z, ref_curve):
         return (
             ref_curve_2_param(ref_curve_scaling_function(z), ref_curve).radius / rp_ref
         )
 
     tooth_generator.pitch_radius = rp_ref
-    tooth_generator.cone_angle = lambda z: gammafunc(z) * 2
+    tooth_generator.cone_angle = functools.partial(coneanglefunc, ref_curve=ref_curve)
     tooth_generator.pitch_intersect_angle = pitch_angle / 4
     return GearProfileRecipe(
         tooth_generator=tooth_generator,
-        cone=ConicDataRecipe(base_radius=rp_ref, cone_angle=lambda z: gammafunc(z) * 2),
+        cone=ConicDataRecipe(
+            base_radius=rp_ref,
+            cone_angle=functools.partial(coneanglefunc, ref_curve=ref_curve),
+        ),
         limits=ToothLimitParamRecipe(),
         pitch_angle=teeth_data.pitch_angle,
         transform=GearTransformRecipe(
-            scale=scalefunc,
-            center=centerfunc,
-            angle=anglefunc,
+            scale=functools.partial(scalefunc, ref_curve=ref_curve),
+            center=functools.partial(centerfunc, ref_curve=ref_curve),
+            angle=functools.partial(anglefunc, ref_curve=ref_curve),
         ),
         fillet=FilletDataRecipe(),
     )
-- 
2.43.0


From 654691c6e2cc3b9fad956a87070bcedd9743faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:59 +0000
Subject: [PATCH 38/52] fix: cone angles of a pair for axis angles other than
 90 degrees

---
 src/gggears/gearmath.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index 5726122..a644dfc 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -26,12 +26,11 @@ def cone_angle_from_teeth(
     np.ndarray
         Array containing the cone angles (in radians) for gear 1 and gear 2.
     """
-    cosfi = np.cos(axis_angle)
     a = float(num_teeth_1)
     b = float(num_teeth_2)
-    e = np.sqrt((-(b**2) - 2 * a * b * cosfi - a**2 * cosfi) / (cosfi - 1))
-    gamma2 = np.arctan(e / a)
-    gamma1 = np.pi - axis_angle - gamma2
+    # sin(gamma1) / sin(gamma2) = a / b and gamma1 + gamma2 = axis_angle
+    gamma2 = np.arctan2(np.sin(axis_angle), a / b + np.cos(axis_angle))
+    gamma1 = axis_angle - gamma2
     return np.array((gamma1 * 2, gamma2 * 2))
 
 
-- 
2.43.0


From 8c3d6f63ff899bf76d7e78faf953f96a3433fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:43 +0000
Subject: [PATCH 39/52] fix: backlash from axis distance inverts the distance
 computation

---
 src/gggears/gearmath.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/gggears/gearmath.py b/src/gggears/gearmath.py
index a644dfc..9cbf4dd 100644
--- a/src/gggears/gearmath.py
+++ b/src/gggears/gearmath.py
@@ -139,19 +139,21 @@ def backlash_from_ax_distance(
         Backlash between the two gears.
     """
     if inside_ring:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (-angle_base_2)
-        a = np.arccos((r_base_2 - r_base_1) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_2 - r_base_1) = 0
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_2 - r_base_1)
+        d1 = r_base_1 * np.abs(angle_base_1)
+        d2 = r_base_2 * np.abs(angle_base_2)
+        bl_sign = np.sign(d2 - d1)
+        # the angle of the line of action is on the side where the teeth are thinner
+        a = -bl_sign * np.sign(r_base_2 - r_base_1) * np.arccos(
+            (r_base_2 - r_base_1) / Distance
+        )
+        #  np.tan(a) - a + (d2 - d1 - backlash / 2 * bl_sign) / (r_base_2 - r_base_1) = 0
+        backlash = 2 * bl_sign * (d2 - d1 + (np.tan(a) - a) * (r_base_2 - r_base_1))
     else:
-        d1 = r_base_1 * (-angle_base_1)
-        d2 = r_base_2 * (pitch_angle_2 / 2 + angle_base_2)
+        d1 = r_base_1 * angle_base_1
+        d2 = r_base_2 * (pitch_angle_2 / 2 - angle_base_2)
         a = np.arccos((r_base_1 + r_base_2) / Distance)
-        #  np.tan(a) - a + (d2 - d1 - backlash) / (r_base_1 + r_base_2) = 0
-        # (d2 - d1 - backlash) / (r_base_1 + r_base_2) = -np.tan(a) + a
-        # (d2 - d1 - backlash) = ( -np.tan(a) + a) * (r_base_1 + r_base_2)
-        backlash = d2 - d1 - (-np.tan(a) + a) * (r_base_1 + r_base_2)
+        #  a - np.tan(a) + (d1 - d2 + backlash / 2) / (r_base_1 + r_base_2) = 0
+        backlash = 2 * (d2 - d1 + (np.tan(a) - a) * (r_base_1 + r_base_2))
     return backlash
 
 
-- 
2.43.0


From 8fb295b85ee98d881057d69f4c6a0b0c05c9853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:31 +0000
Subject: [PATCH 40/52] fix: adapting cycloid radii keeps the placement of both
 gears

---
 src/gggears/gggears_wrapper.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 4cdb978..d10f73c 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1926,8 +1926,6 @@ class CycloidGear(GearInfoMixin):
                 / other.number_of_teeth
                 * self.number_of_teeth
             )
-        self.calc_params()
-        other.calc_params()
 
     def build_boundary_wire(self, z_ratio: float = 0):
         """Generates a build123d Wire object of the gear-tooth slice at a given z-ratio.
-- 
2.43.0


From 4c010b6a9ebe76ebdd881701b8c7893e4fb8c045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:49 +0000
Subject: [PATCH 41/52] fix: refresh the lengths of a NURBSCurve after its
 points are edited

The points setter, enforce_continuity and update_inactive_continuity changed
the control points of the pieces but left their lengths and length-parameter
lookups as they were.
---
 src/gggears/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 8e6a372..eb07d37 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1619,6 +1619,7 @@ class NURBSCurve(CurveChain):
             # knots start with 0 which is the first point
             idx = self.knots[k]
             curve.points = newpoints[idx : idx + curve.n_points]
+        self.update_lengths()
 
     @property
     def weights(self):
@@ -1648,6 +1649,7 @@ class NURBSCurve(CurveChain):
             self.curves[0].points[0] = midpoints
             self.curves[-1].weights[-1] = midweights
             self.curves[0].weights[0] = midweights
+        self.update_lengths()
 
     def update_inactive_continuity(self):
         for k in range(len(self.curves)):
@@ -1655,6 +1657,7 @@ class NURBSCurve(CurveChain):
                 p = self(self.get_t_for_index(k)[0])
                 for j in range(self.curves[k].points.shape[0]):
                     self.curves[k].points[j] = p
+        self.update_lengths()
 
     @classmethod
     def from_points(cls, points, knots, weights=None, active=True):
-- 
2.43.0


From 9fbbb955fa99a1934299fef382253fecd75f28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:26 +0000
Subject: [PATCH 42/52] fix: convert an arc to NURBS by the extent in use

The exact 3 point form was chosen by the full angle of the arc, so an arc
extended beyond 180 degrees became the complementary arc.
---
 src/gggears/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index eb07d37..1bd42bf 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -951,7 +951,8 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
             bz_points = np.array([input_curve(0), input_curve(1)])
             bz_weights = np.ones((2))
         elif isinstance(input_curve, ArcCurve):
-            if abs(input_curve.angle) < PI:
+            # the extent currently in use, the curve may be trimmed or extended
+            if abs(input_curve.angle * (input_curve.t_1 - input_curve.t_0)) < PI:
                 bz_points, bz_weights = calc_nurbezier_arc(
                     input_curve(0), input_curve(1), input_curve.center
                 )
-- 
2.43.0


From 610807a5682dba07e1c15c1cb1436c6ba10bc295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:51 +0000
Subject: [PATCH 43/52] fix: evaluate arcs at an array of parameters

Recent scipy rejects an array of angles for a rotation about one axis, so
rotating, mirroring, adding or scaling an ArcCurve raised an error.
---
 src/gggears/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index 1bd42bf..b7e6198 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -1144,7 +1144,8 @@ class ArcCurve(Curve):
         self._pitch = pitch
         self._roll = roll
         self._rotmat = self.gen_rotmat()
-        super().__init__(self.arcfunc, active=active, enable_vectorize=False)
+        # from_euler does not take an array of angles about a single axis
+        super().__init__(self.arcfunc, active=active, enable_vectorize=True)
 
     def gen_rotmat(self):
         return scp_Rotation.from_euler(
-- 
2.43.0


From 424a3bfe9c663541dc2f952a28316f3b8d0c4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:51 +0000
Subject: [PATCH 44/52] fix: curve chains can be multiplied and divided by a
 number

---
 src/gggears/curve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index b7e6198..cd9f3c7 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -355,6 +355,9 @@ class Curve:
 class CurveChain(Curve):
     """A class to represent a kind of polyline made up of Curves. Also can behave like a Curve."""
 
+    # a chain handles array inputs by itself, no matter what its curves do
+    enable_vectorize = False
+
     def __init__(self, *curves: "Curve", active=True, **kwargs):
         self.curves: list[Curve] = [*curves]
         self._active = active
-- 
2.43.0


From 210e8651d6928824c59c6a1dbd7270604ed65e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:51 +0000
Subject: [PATCH 45/52] fix: ask for the base circle of a bevel gear gives a
 clear error, as its base angle does

---
 src/gggears/gggears_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index d10f73c..7bb0409 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -477,7 +477,10 @@ class InvoluteGear(GearInfoMixin):
             0 means at the bottom, 1 at the top. Default is 0.
         """
         z = self.proportion_to_z(z_ratio)
-        r = self.gearcore.shape_recipe(z).tooth_generator.get_base_radius()
+        tooth_gen = self.gearcore.shape_recipe(z).tooth_generator
+        if not isinstance(tooth_gen, (InvoluteTooth, InvoluteUndercutTooth)):
+            raise ValueError("Base circle is only implemented for involute gears.")
+        r = tooth_gen.get_base_radius()
         trf = self.gearcore.transform * self.gearcore.shape_recipe(z).transform
         circle_ref = crv.ArcCurve(radius=r, center=ORIGIN, angle=2 * PI).transform(trf)
         return circle_ref
-- 
2.43.0


From 9f32d9897c4240ab6a6ae6ae211e4952e3fbf58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:37 +0000
Subject: [PATCH 46/52] fix: the Hirth joint example imports what it uses

---
 examples/straight_tooth_bevel_hirth_thing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/straight_tooth_bevel_hirth_thing.py b/examples/straight_tooth_bevel_hirth_thing.py
index 2f8c7dc..1ffac11 100644
--- a/examples/straight_tooth_bevel_hirth_thing.py
+++ b/examples/straight_tooth_bevel_hirth_thing.py
@@ -1,4 +1,6 @@
+import copy
 from gggears import *
+from build123d import Axis
 from ocp_vscode import show
 
 # thi code is meant to approximate a Hirth joint with a straight tooth 180deg bevel gear
@@ -36,7 +38,7 @@ testgear.shape_recipe.limits.h_d = 3
 
 builder = GearBuilder(testgear, n_points_hz=3, n_points_vert=4)
 part = builder.part_transformed
-part2 = builder.part_transformed.copy()
+part2 = copy.copy(builder.part_transformed)
 part2 = part2.rotate(Axis.X, 180)
 part2 = part2.rotate(Axis.Z, 360 / num_teeth / 2)
 
-- 
2.43.0


From 9d2c23e71f6958535e8171894d7b0ec01ee550df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:37 +0000
Subject: [PATCH 47/52] fix: the crescent pump example calls the mesh distance
 functions with their arguments

---
 examples/build123d_crescent_gearpump.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/examples/build123d_crescent_gearpump.py b/examples/build123d_crescent_gearpump.py
index 17f8323..9ec602f 100644
--- a/examples/build123d_crescent_gearpump.py
+++ b/examples/build123d_crescent_gearpump.py
@@ -55,8 +55,21 @@ with BuildPart() as gearpart1:
 gear1.mesh_to(gear2)
 # adjustment for backlash / fitting
 delta1 = gg.calc_involute_mesh_distance(
-    gear1, gear2, clearence * 0
-) - gg.calc_nominal_mesh_distance(gear1, gear2)
+    gear1.r_base,
+    gear2.r_base,
+    -gear1.angle_base,
+    -gear2.angle_base,
+    gear2.pitch_angle,
+    inside_ring=True,
+    backlash=clearence * 0,
+) - gg.calc_nominal_mesh_distance(
+    gear1.rp,
+    gear2.rp,
+    gear1.inputparam.profile_shift,
+    gear2.inputparam.profile_shift,
+    gearmodule,
+    inside_ring_2=True,
+)
 # gear1.center += gg.LEFT * delta1
 gear1.angle += delta1 / gear1.r_base * 0
 
-- 
2.43.0


From c71af8b908bbcaec9bcde81dbc7e67492836d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:06 +0000
Subject: [PATCH 48/52] fix: curve chains accept their parameter by the same
 name as curves

---
 src/gggears/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index cd9f3c7..cd8bf79 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -479,11 +479,11 @@ class CurveChain(Curve):
         point_out = self.curves[idx](s2)
         return point_out
 
-    def __call__(self, p):
+    def __call__(self, s):
         # no need of params of **params for the function
         # the functions technically belong to members,
         #   function of the chain makes little sense
-        return vectorize(self.curve_list_eval)(p)
+        return vectorize(self.curve_list_eval)(s)
 
     def get_curves(self, lerp_inactive=False):
         """Return the list of curves in the chain. Flattens the array structure if there are nested chains."""
-- 
2.43.0


From b0eb2ba70df6fa265a89071ad46e8ad63f53f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:47 +0000
Subject: [PATCH 49/52] Revert "fix: the crescent pump example calls the mesh
 distance functions with their arguments"

This reverts commit 9d2c23e71f6958535e8171894d7b0ec01ee550df.
---
 examples/build123d_crescent_gearpump.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/examples/build123d_crescent_gearpump.py b/examples/build123d_crescent_gearpump.py
index 9ec602f..17f8323 100644
--- a/examples/build123d_crescent_gearpump.py
+++ b/examples/build123d_crescent_gearpump.py
@@ -55,21 +55,8 @@ with BuildPart() as gearpart1:
 gear1.mesh_to(gear2)
 # adjustment for backlash / fitting
 delta1 = gg.calc_involute_mesh_distance(
-    gear1.r_base,
-    gear2.r_base,
-    -gear1.angle_base,
-    -gear2.angle_base,
-    gear2.pitch_angle,
-    inside_ring=True,
-    backlash=clearence * 0,
-) - gg.calc_nominal_mesh_distance(
-    gear1.rp,
-    gear2.rp,
-    gear1.inputparam.profile_shift,
-    gear2.inputparam.profile_shift,
-    gearmodule,
-    inside_ring_2=True,
-)
+    gear1, gear2, clearence * 0
+) - gg.calc_nominal_mesh_distance(gear1, gear2)
 # gear1.center += gg.LEFT * delta1
 gear1.angle += delta1 / gear1.r_base * 0
 
-- 
2.43.0


From bcae85e4b9fcdd0e97e7317f948809c4beb4816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:47 +0000
Subject: [PATCH 50/52] Revert "fix: the Hirth joint example imports what it
 uses"

This reverts commit 9f32d9897c4240ab6a6ae6ae211e4952e3fbf58a.
---
 examples/straight_tooth_bevel_hirth_thing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/examples/straight_tooth_bevel_hirth_thing.py b/examples/straight_tooth_bevel_hirth_thing.py
index 1ffac11..2f8c7dc 100644
--- a/examples/straight_tooth_bevel_hirth_thing.py
+++ b/examples/straight_tooth_bevel_hirth_thing.py
@@ -1,6 +1,4 @@
-import copy
 from gggears import *
-from build123d import Axis
 from ocp_vscode import show
 
 # thi code is meant to approximate a Hirth joint with a straight tooth 180deg bevel gear
@@ -38,7 +36,7 @@ testgear.shape_recipe.limits.h_d = 3
 
 builder = GearBuilder(testgear, n_points_hz=3, n_points_vert=4)
 part = builder.part_transformed
-part2 = copy.copy(builder.part_transformed)
+part2 = builder.part_transformed.copy()
 part2 = part2.rotate(Axis.X, 180)
 part2 = part2.rotate(Axis.Z, 360 / num_teeth / 2)
 
-- 
2.43.0


From 6e15cfcec8223acb9f765bd7e1744b590646fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:43 +0000
Subject: [PATCH 51/52] fix: a helical gear follows the helix of its ring when
 their angles differ

---
 src/gggears/gggears_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gggears/gggears_wrapper.py b/src/gggears/gggears_wrapper.py
index 7bb0409..46d2daf 100644
--- a/src/gggears/gggears_wrapper.py
+++ b/src/gggears/gggears_wrapper.py
@@ -1177,8 +1177,10 @@ class HelicalGear(InvoluteGear):
         )
         # orientation correction
         rot_axis = normalize_vector(other.gearcore.center - self.gearcore.center)
-        if self.inside_teeth or other.inside_teeth:
+        if other.inside_teeth:
             # teeth of a gear and its ring lean the same way
+            angle_axis = other.beta - self.beta
+        elif self.inside_teeth:
             angle_axis = self.beta - other.beta
         else:
             angle_axis = self.beta + other.beta
-- 
2.43.0


From b6dbec606b8ec18cf5a0680d15847d7d74e6876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:55 +0000
Subject: [PATCH 52/52] fix: converting a transformed curve keeps whether it is
 active

---
 src/gggears/curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gggears/curve.py b/src/gggears/curve.py
index cd8bf79..8d0eba3 100644
--- a/src/gggears/curve.py
+++ b/src/gggears/curve.py
@@ -948,6 +948,7 @@ def convert_curve_nurbezier(input_curve: Curve, skip_inactive=True, **kwargs):
             if t_0 != 0 or t_1 != 1:
                 target.set_start_and_end_on(t_0, t_1)
             convert = convert_curve_nurbezier(target, **kwargs)
+            convert.active = input_curve.active
             convert.apply_transform(input_curve.apply_transform)
             return convert
         elif isinstance(input_curve, LineCurve):
-- 
2.43.0

