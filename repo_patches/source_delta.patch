From dac4b0470dab160076ee1a2881388e37e9bf2cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 01/23] fix: bounding box of a union encloses disjoint children

---
 tinygfx/g3d/csg.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9dad29f..bfcfc66 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -95,7 +95,18 @@ class CSGSurface(Intersectable):
         the bounding box is only updated for add and intersection operations
         :return:
         """
-        if self._operation != Operation.DIFFERENCE:
+        if self._operation == Operation.UNION:
+            # the box has to enclose both children, even if they're disjoint. A child that is empty (its box has
+            # no finite extent) doesn't contribute
+            child_spans = [
+                child.bounding_box.axis_spans.T
+                for child in (self._l_child, self._r_child)
+            ]
+            spans = [span for span in child_spans if np.all(np.isfinite(span))]
+            spans = np.vstack(spans if spans else child_spans)
+            local_aobb = primitives.Cube(np.min(spans, axis=0), np.max(spans, axis=0))
+
+        elif self._operation == Operation.INTERSECT:
             new_spans = array_csg(
                 self._l_child.bounding_box.axis_spans.T,
                 self._r_child.bounding_box.axis_spans.T,
-- 
2.43.0


From b45b8a380ed0483352dbe1f846d3fede8bfc510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 02/23] fix: composites notify all of their ancestors when a
 part moves

---
 tinygfx/g3d/world_objects.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 94d4fd7..40b87a1 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -128,6 +128,9 @@ class WorldObject(CountedObject):
             new_transform, self._world_coordinate_transform
         )
         # update the functions in the watch list
+        self._notify_watchers()
+
+    def _notify_watchers(self):
         [fn() for fn in self.var_watchlist]
 
     def get_position(self):
@@ -314,7 +317,9 @@ class Intersectable(WorldObject, abc.ABC):
 
     def attach_to(self, parent_object: WorldObject) -> None:
         self._parent = parent_object
-        self.var_watchlist += parent_object.var_watchlist
+        # notify the parent instead of copying its watch list, so functions that are added to the parent later (e.g. when
+        # it is attached to a parent of its own) are called as well
+        self.var_watchlist.append(parent_object._notify_watchers)
 
     def invert_normals(self):
         self._normal_scale = -1
-- 
2.43.0


From 1b4daf6bcf093ada8de0250455bb156aedc2f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 03/23] fix: a rejected transform leaves the object and its
 parts unchanged

---
 tinygfx/g3d/csg.py           |  5 +++++
 tinygfx/g3d/world_objects.py | 25 +++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index bfcfc66..c4a9c4a 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -183,6 +183,11 @@ class CSGSurface(Intersectable):
         # returns the surface id's of both children
         return self._l_child.surface_ids + self._r_child.surface_ids
 
+    def _validate_transform(self, new_transform):
+        super()._validate_transform(new_transform)
+        self._l_child._validate_transform(new_transform)
+        self._r_child._validate_transform(new_transform)
+
     def _append_world_transform(self, new_transform):
         # override the append world transform so children are moved too
         super()._append_world_transform(new_transform)
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 40b87a1..b433d1e 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -123,7 +123,27 @@ class WorldObject(CountedObject):
             self._world_coordinate_transform
         )
 
+    def _validate_transform(self, new_transform):
+        """
+        Raises an error if the transform cannot be applied, without changing the state of the object. Objects that
+        forward transforms to other objects extend this function to validate those as well.
+        """
+        new_world_transform = np.matmul(new_transform, self._world_coordinate_transform)
+        condition = np.linalg.cond(np.asarray(new_transform)[:3, :3])
+        if condition > 1 / np.finfo(float).eps:
+            raise linalg.LinAlgError("Singular matrix")
+
+        norm = linalg.norm(np.matmul(new_world_transform, self._obj_direction))
+        if norm < 1e-7:
+            raise ValueError(
+                f"Measured Norm of World primitives.Vector below tolerance: {norm}"
+            )
+        np.linalg.inv(new_world_transform)
+
     def _append_world_transform(self, new_transform):
+        # a transform that is rejected must not change anything, so check it before the first object is updated
+        self._validate_transform(new_transform)
+
         self._world_coordinate_transform = np.matmul(
             new_transform, self._world_coordinate_transform
         )
@@ -288,6 +308,11 @@ class ObjectGroup(WorldObject, collections.UserList):
         # inheriting from UserList will make a public variable called data in our group
         super().__init__(*args, **kwargs)
 
+    def _validate_transform(self, new_transform):
+        super()._validate_transform(new_transform)
+        for surface in self.data:
+            surface._validate_transform(new_transform)
+
     def _append_world_transform(self, new_transform):
         super()._append_world_transform(
             new_transform
-- 
2.43.0


From 930580de95210c437fca1011b45eb730d1c1354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 04/23] fix: keep the objects of sources and components passed
 as iterators

---
 pyrayt/_pyrayt.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8005f85..cb8f4cf 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -226,17 +226,8 @@ class RayTracer(object):
         self._simulation_complete = False
 
         # if single elements are passed for sources or components, pad them into a tuple
-        if not hasattr(sources, "__iter__"):
-            self._sources = (sources,)
-        else:
-            self._sources = sources
-
-        if not hasattr(
-            components, "__iter__"
-        ):  # returns True if type of iterable - same problem with strings
-            self._components = (components,)
-        else:
-            self._components = components
+        self._sources = self._as_collection(sources)
+        self._components = self._as_collection(components)
 
         self._rays_per_source = rays_per_source
         self._generation_limit = (
@@ -309,12 +300,19 @@ class RayTracer(object):
         :param components: a single component or iterable set of components.
         """
 
+        self._components = self._as_collection(components)
+
+    @staticmethod
+    def _as_collection(objects):
         if not hasattr(
-            components, "__iter__"
+            objects, "__iter__"
         ):  # returns True if type of iterable - same problem with strings
-            self._components = (components,)
+            return (objects,)
+        elif iter(objects) is objects:
+            # an iterator is used up after one pass, but the objects are needed for every trace
+            return list(objects)
         else:
-            self._components = components
+            return objects
 
     def get_system(self):
         """
-- 
2.43.0


From 3c15a0a1a930d8be203efc2bcfa311799fa249cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 05/23] fix: static lamps follow their position and wavelength
 and keep their rays

---
 pyrayt/components.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e7d950d..f67cee2 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -1,5 +1,4 @@
 import abc
-from functools import lru_cache
 from functools import wraps
 from typing import Union, Tuple
 
@@ -657,6 +656,16 @@ class Lamp(Source):
 class StaticLamp(Lamp):
     """Identical to a :class:`Lamp`, except the ray generation function is cached so the same set of rays is generated across multiple simulations. Useful for running Monte-Carlo models where the random noise of the source is larger than the resolution you're trying to capture at."""
 
-    @lru_cache(10)
-    def generate_rays(self, n_rays: int) -> pyrayt.RaySet:
-        return super().generate_rays(n_rays)
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        self._static_rays = {}  # the local rays that were generated for each ray count
+
+    def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
+        # cache the rays in the lamp's own coordinates, so they still follow its position, and hand out copies, so that
+        # the caller is free to modify them
+        if n_rays not in self._static_rays:
+            self._static_rays.setdefault(n_rays, super()._local_ray_generation(n_rays))
+
+        rayset = self._static_rays[n_rays].copy()
+        rayset.wavelength = self._wavelength
+        return rayset
-- 
2.43.0


From 54d29650cf621711ec79dbd60892990e205ce8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 06/23] fix: trace the components that are loaded when the
 trace starts

---
 pyrayt/_pyrayt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index cb8f4cf..e0d98bd 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -245,10 +245,7 @@ class RayTracer(object):
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
 
-        # make a flattened list of all surface IDS
         self._surface_lut = tuple()
-        for shape in self._components:
-            self._surface_lut += shape.surface_ids
 
     def reset(self):
         """
@@ -354,6 +351,11 @@ class RayTracer(object):
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS, the components may have changed since the last trace
+        self._surface_lut = tuple()
+        for shape in self._components:
+            self._surface_lut += shape.surface_ids
+
         # make a ray set from the concatenated ray sets returned by the sources
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
-- 
2.43.0


From 96f8725ce4de603e5464c5e31e39b7cfd097ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 07/23] fix: get_system returns the current components

---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index e0d98bd..b5f6a67 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -319,7 +319,7 @@ class RayTracer(object):
         :return: List[tinygfx.g3d.world_objects.Intersectable]
         """
 
-        return self._system
+        return self._components
 
     def trace(self):
         self._state = RayTracer._States.INITIALIZE  # kick off the state machine
-- 
2.43.0


From 3f935ce87e4c05c38f9192cbced134c793d5b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 08/23] fix: rays below the intensity threshold are removed
 from the trace

np.logical_or takes two operands, the third one was used as its output array.
---
 pyrayt/_pyrayt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index b5f6a67..79473d8 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -414,8 +414,8 @@ class RayTracer(object):
         # (no intersection)
         absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
         powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
-        dead_rays = np.logical_or(
-            absorbed_rays, self._hit_surfaces == -1, powerless_rays
+        dead_rays = np.logical_or.reduce(
+            (absorbed_rays, self._hit_surfaces == -1, powerless_rays)
         )
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
-- 
2.43.0


From 72f6d5042e17b1dec0ca7c4e1165e713861901b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 09/23] fix: a generation limit lowered during a trace still
 ends it

Once the limit was below the current generation the equality was never met and rays in a closed cavity were traced forever.
---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 79473d8..fdeeced 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -441,7 +441,7 @@ class RayTracer(object):
             next_ray_set.generation = self._generation_number
 
             # if we hit the generation limit exit the sim
-            if self._generation_number == self._generation_limit:
+            if self._generation_number >= self._generation_limit:
                 self._state = RayTracer._States.FINISH
 
             else:
-- 
2.43.0


From 488ba89be2d5b0ddaa1672b2f2e22cd8fe6ed197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 10/23] fix: a pin restores composites with their parts, and
 can be re-entered

Pinning a composite or group together with its own parts restored the parts twice or not at all, depending on the order, parts
that were moved on their own stayed displaced, and entering the same pin again overwrote the matrices of the outer context.
---
 pyrayt/_pyrayt.py            | 20 ++++++++++++++++----
 tinygfx/g3d/csg.py           |  4 ++++
 tinygfx/g3d/world_objects.py | 11 +++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index fdeeced..85bfe8f 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -560,16 +560,28 @@ class pin(object):
 
     def __init__(self, *objects_to_pin):
         self._obj_set = objects_to_pin
+        self._starting_matrices = []
+
+    @classmethod
+    def _with_parts(cls, objects):
+        # every object is followed by its parts, so a part is restored after all the objects that carry it along
+        for this_object in objects:
+            yield this_object
+            yield from cls._with_parts(getattr(this_object, "_parts", ()))
 
     def __enter__(self):
-        self._starting_matrices = [
-            surface.get_world_transform() for surface in self._obj_set
-        ]
+        # a pin can be entered again before it was left, so keep the starting matrices of every entry
+        self._starting_matrices.append(
+            [
+                (this_object, this_object.get_world_transform())
+                for this_object in self._with_parts(self._obj_set)
+            ]
+        )
         return self._obj_set
 
     def __exit__(self, exception_type, exception_value, traceback):
 
-        for this_object, starting_matrix in zip(self._obj_set, self._starting_matrices):
+        for this_object, starting_matrix in self._starting_matrices.pop():
             final_matrix = this_object.get_world_transform()
             matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
             this_object.transform(np.linalg.inv(matrix_change))
diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index c4a9c4a..94853fe 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -183,6 +183,10 @@ class CSGSurface(Intersectable):
         # returns the surface id's of both children
         return self._l_child.surface_ids + self._r_child.surface_ids
 
+    @property
+    def _parts(self) -> tuple:
+        return (self._l_child, self._r_child)
+
     def _validate_transform(self, new_transform):
         super()._validate_transform(new_transform)
         self._l_child._validate_transform(new_transform)
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index b433d1e..25555ba 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -153,6 +153,13 @@ class WorldObject(CountedObject):
     def _notify_watchers(self):
         [fn() for fn in self.var_watchlist]
 
+    @property
+    def _parts(self) -> tuple:
+        """
+        The objects that are carried along when this object is transformed.
+        """
+        return ()
+
     def get_position(self):
         # check if the position is valid, if not update it and return
         if not self._pos_valid:
@@ -308,6 +315,10 @@ class ObjectGroup(WorldObject, collections.UserList):
         # inheriting from UserList will make a public variable called data in our group
         super().__init__(*args, **kwargs)
 
+    @property
+    def _parts(self) -> tuple:
+        return tuple(self.data)
+
     def _validate_transform(self, new_transform):
         super()._validate_transform(new_transform)
         for surface in self.data:
-- 
2.43.0


From 16ba34a43b56ca6696f3a9ceab718b8310b7de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 11/23] fix: attribute rays to sources by the ray count they
 were traced with

---
 pyrayt/_pyrayt.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 85bfe8f..31f21bf 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -230,6 +230,8 @@ class RayTracer(object):
         self._components = self._as_collection(components)
 
         self._rays_per_source = rays_per_source
+        # the rays per source of the current results, the setting may change after they were traced
+        self._traced_rays_per_source = rays_per_source
         self._generation_limit = (
             generation_limit  # how many reflections/refractions a ray can encounter
         )
@@ -345,7 +347,7 @@ class RayTracer(object):
         """
         Calculates the Source ID for every ray in the dataframe, adding it as a column
         """
-        ids = (self._frame.data["id"] / self._rays_per_source).astype(int)
+        ids = (self._frame.data["id"] / self._traced_rays_per_source).astype(int)
         self._frame.data["source_id"] = ids
 
     def _st_initialize(self):
@@ -357,8 +359,10 @@ class RayTracer(object):
             self._surface_lut += shape.surface_ids
 
         # make a ray set from the concatenated ray sets returned by the sources
+        n_rays = self._rays_per_source
+        self._traced_rays_per_source = n_rays
         self._ray_set = np.hstack(
-            [source.generate_rays(self._rays_per_source) for source in self._sources]
+            [source.generate_rays(n_rays) for source in self._sources]
         ).view(RaySet)
         self._ray_set.id = np.arange(
             self._ray_set.n_rays
@@ -485,8 +489,9 @@ class RayTracer(object):
             for n, this_color in enumerate(colors):
                 color = np.where(
                     np.logical_and(
-                        self._frame.data["id"] >= n * self._rays_per_source,
-                        self._frame.data["id"] < (n + 1) * self._rays_per_source,
+                        self._frame.data["id"] >= n * self._traced_rays_per_source,
+                        self._frame.data["id"]
+                        < (n + 1) * self._traced_rays_per_source,
                     ),
                     np.atleast_2d(this_color).T,
                     color,
-- 
2.43.0


From ff328f80311be4dc6136e0f142df3d4e1d5df90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 12/23] fix: get_results of the edge renderer returns the
 rendered image

---
 tinygfx/g3d/renderers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c623919..8ffdf39 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -54,11 +54,11 @@ class EdgeRender(object):
 
     def get_results(self):
         """
-        Returns a dataframe of the Ray Trace Results
+        Returns the image of the last render, or None if nothing has been rendered
 
-        :return: pandas dataframe
+        :return: an mxnx4 array of rgba values
         """
-        return self._frame.data
+        return self._results
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
-- 
2.43.0


From 7db2d3a507bf5f3e83647dc8951ef637cdfcefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 13/23] fix: draw places the camera in front of the components,
 wherever they are

---
 tinygfx/g3d/renderers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 8ffdf39..380d37d 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -284,8 +284,9 @@ def draw(
 
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[2] = 1.5 * maxes[2]
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
+    # the camera looks along -z, so it's placed above everything it draws
+    camera_origin[2] = maxes[2] + np.maximum(h_span, v_span)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
@@ -318,8 +319,9 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[1] = 1.5 * maxes[1]
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
+    # the camera looks along +y, so it's placed on the -y side of everything it draws
+    camera_origin[1] = mins[1] - np.maximum(h_span, v_span)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
-- 
2.43.0


From cf59cd1689c1adddbd9138f06ac26793854cc36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 14/23] fix: renderers do not show surfaces behind the camera

---
 tinygfx/g3d/renderers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 380d37d..9f78c48 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -78,9 +78,9 @@ class EdgeRender(object):
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any hits behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -194,9 +194,9 @@ class ShadedRenderer:
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any hits behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
-- 
2.43.0


From 49dde6cada53fe27cac8e3ff56fe3df43f24e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:48 +0000
Subject: [PATCH 15/23] fix: the shaded renderer shows the shapes it has when
 it renders

---
 tinygfx/g3d/renderers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 9f78c48..2ef4fb3 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -147,10 +147,6 @@ class ShadedRenderer:
         self._shapes = shapes
         self._surface_lut = tuple()
 
-        # make a flattened list of all surface IDS
-        for shape in self._shapes:
-            self._surface_lut += shape.surface_ids
-
         self._state_machine = {
             self.States.INITIALIZE: self._st_initialize,
             self.States.PROPAGATE: self._st_propagate,
@@ -179,6 +175,11 @@ class ShadedRenderer:
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS of the shapes being rendered
+        self._surface_lut = tuple()
+        for shape in self._shapes:
+            self._surface_lut += shape.surface_ids
+
         # Create an outgoing ray set from the camera
         self._rays = self._camera.generate_rays()
         self._state = (
-- 
2.43.0


From 16c8dea1a941428625aa403026663d73b21889eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 16/23] fix: draw thin components with at least a few pixels

---
 tinygfx/g3d/renderers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 2ef4fb3..6a7a255 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -283,9 +283,15 @@ def draw(
         _draw_xz(surfaces, axis, shaded, resolution, maxes, mins)
 
 
+def _camera_spans(extents, resolution):
+    # the camera spans, which are a few pixels wide no matter how thin the objects are
+    spans = 1.5 * extents
+    return np.maximum(spans, np.max(spans) * np.minimum(1, 3.5 / resolution))
+
+
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
+    h_span, v_span = _camera_spans(maxes[:2] - mins[:2], resolution)
     # the camera looks along -z, so it's placed above everything it draws
     camera_origin[2] = maxes[2] + np.maximum(h_span, v_span)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
@@ -320,7 +326,7 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
+    h_span, v_span = _camera_spans(maxes[[0, 2]] - mins[[0, 2]], resolution)
     # the camera looks along +y, so it's placed on the -y side of everything it draws
     camera_origin[1] = mins[1] - np.maximum(h_span, v_span)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
-- 
2.43.0


From 296a0830150a634940bf38be3359e7a51b7efaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:08 +0000
Subject: [PATCH 17/23] fix: the Abbe number follows the coefficients of the
 glass

---
 pyrayt/materials.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyrayt/materials.py b/pyrayt/materials.py
index d63cef5..c1c9a6c 100644
--- a/pyrayt/materials.py
+++ b/pyrayt/materials.py
@@ -4,7 +4,6 @@ from pyrayt._pyrayt import RaySet
 from tinygfx.g3d import materials as cg_matl
 import tinygfx.g3d as cg
 import abc
-from functools import lru_cache
 
 
 class TracableMaterial(cg_matl.gooch.Material):
@@ -74,7 +73,6 @@ class Glass(TracableMaterial):
         )
         return ray_set
 
-    @lru_cache(100)
     def abbe(self) -> float:
         """
         Calculates the `Abbe number <https://en.wikipedia.org/wiki/Abbe_number>`_ of the material.
-- 
2.43.0


From 2535d6cdeac24f58f6889fe757552e9b4bbe57be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 18/23] fix: a group moves members that are listed or reached
 twice only once

---
 tinygfx/g3d/world_objects.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 25555ba..12730e5 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -329,9 +329,19 @@ class ObjectGroup(WorldObject, collections.UserList):
             new_transform
         )  # update the Groups world transform matrix
 
-        # iterate over all surfaces in the group and update their transform matrices
+        # iterate over all surfaces in the group and update their transform matrices, surfaces that are parts of another
+        # member are carried along by that member
+        moved_surfaces = {id(part) for surface in self.data for part in self._all_parts(surface)}
         for surface in self.data:
-            surface.transform(new_transform)
+            if id(surface) not in moved_surfaces:
+                moved_surfaces.add(id(surface))
+                surface.transform(new_transform)
+
+    @classmethod
+    def _all_parts(cls, surface):
+        for part in surface._parts:
+            yield part
+            yield from cls._all_parts(part)
 
 
 class Intersectable(WorldObject, abc.ABC):
-- 
2.43.0


From 1081ded987d101984a094b99854fed985b67e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:10 +0000
Subject: [PATCH 19/23] fix: draw leaves out components without any volume
 instead of failing

---
 tinygfx/g3d/renderers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 6a7a255..ff705e8 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -260,20 +260,23 @@ def draw(
     if not hasattr(surfaces, "__iter__"):
         surfaces = (surfaces,)
 
+    if axis is None:
+        axis = plt.gca()
+
     # draw a surface for a given projection
-    bounding_box = np.hstack(
-        [surface.bounding_volume.bounding_points[:3] for surface in surfaces]
-    )
     if bounds is not None:
         mins = np.asarray(bounds[0])
         maxes = np.asarray(bounds[1])
     else:
+        # surfaces without any volume do not have finite bounds, and there's nothing of them to draw
+        corners = [surface.bounding_volume.bounding_points[:3] for surface in surfaces]
+        corners = [points for points in corners if np.all(np.isfinite(points))]
+        if not corners:
+            return
+        bounding_box = np.hstack(corners)
         mins = np.min(bounding_box, axis=1)
         maxes = np.max(bounding_box, axis=1)
 
-    if axis is None:
-        axis = plt.gca()
-
     # this case is for a "top" projection in the xy plane
     # the camera origin should be above the object centered over it
     if view == "xy":
-- 
2.43.0


From ff78a1f067720f49cbbe7e8f859e7728bb74040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 20/23] fix: draw the components of an iterator

---
 tinygfx/g3d/renderers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index ff705e8..906d13b 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -257,8 +257,8 @@ def draw(
     bounds=None,
     resolution=640,
 ):
-    if not hasattr(surfaces, "__iter__"):
-        surfaces = (surfaces,)
+    # the surfaces are needed more than once, so they cannot be left in an iterator
+    surfaces = tuple(surfaces) if hasattr(surfaces, "__iter__") else (surfaces,)
 
     if axis is None:
         axis = plt.gca()
-- 
2.43.0


From b5082d1147009e40fafc4cbdfcdb4c60fb56f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 21/23] fix: intersect cylinders with rays almost parallel to
 their axis

Roots of a quadratic whose leading coefficient is below 1e-8 were those of
the linear equation without it, so a ray up to 1e-4 rad off the axis of a
cylinder missed the cylinder.
---
 tinygfx/g3d/operations.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 9eb7a35..17c4840 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -40,13 +40,19 @@ def binomial_root(a, b, c, disc=None):
         b ** 2 - 4 * a * c if disc is None else disc
     )  # find the discriminant, or use the provided one
     # linear cases are where there's no expontential term, have to be handled separately
-    linear_cases = np.isclose(a, 0)
+    # a small a is no linear case, e.g. rays almost parallel to a cylinder still enter or leave through its side
+    linear_cases = np.equal(a, 0)
     root = np.sqrt(
         np.maximum(0, disc)
     )  # the square root of the discriminant protected from being nan
 
-    # solve for the polynomial roots
-    polyroots = np.vstack(((-b + root), (-b - root))) / (2 * a + np.isclose(a, 0))
+    # solve for the polynomial roots, using the one that does not cancel to get the other
+    q = -(b + np.where(b < 0, -root, root)) / 2
+    far_root = q / (a + linear_cases)
+    near_root = c / (q + np.equal(q, 0))
+    polyroots = np.where(
+        b < 0, np.vstack((far_root, near_root)), np.vstack((near_root, far_root))
+    )
     # Now correct for the cases that should be infinite
     polyroots = np.where(disc >= 0, polyroots, np.inf)
 
-- 
2.43.0


From de6f4c4d03ceff3e825c0a87e3eaf4cf5b45ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 22/23] fix: intersect paraboloids with rays almost parallel to
 their axis

Rays less than 1e-4 rad off the axis of a paraboloid were taken for rays along
the axis, which misplaced where they hit by far more than rounding does.
---
 tinygfx/g3d/primitives.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index ef28092..4c2b065 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -343,16 +343,10 @@ class Paraboloid(SurfacePrimitive):
         # calculate the binomial roots of the function
         disc = b ** 2 - 4 * a * c  # the discriminant of the sqrt in the roots equation
         # linear cases are where there's no expontential term, have to be handled separately
-        linear_cases = np.isclose(a, 0)
-        root = np.sqrt(
-            np.maximum(0, disc)
-        )  # the square root of the discriminant protected from being nan
+        linear_cases = np.equal(a, 0)
 
         # solve for the polynomial roots
-        parabola_hits = np.vstack(((-b + root), (-b - root))) / (2 * a + linear_cases)
-
-        # Now correct for the cases that should be infinite (no intersection)
-        parabola_hits = np.where(disc >= 0, parabola_hits, np.inf)
+        parabola_hits = binomial_root(a, b, c, disc)
 
         # update for the linear roots case
         # for linear cases, the second intersection should be +inf if the ray is traveling in the positive z direction
-- 
2.43.0


From aa2b0953e30c4a0944e428837d0ca545ca9449ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:21 +0000
Subject: [PATCH 23/23] fix: move an object once even if it is part of a
 composite or group in several ways

Moving e.g. difference(union(a, b), intersect(a, b)) moved a and b twice, as
did a group of two groups with a common member.
---
 tinygfx/g3d/csg.py           |  6 ------
 tinygfx/g3d/world_objects.py | 42 ++++++++++++++++--------------------
 2 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 94853fe..1eeb636 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -192,12 +192,6 @@ class CSGSurface(Intersectable):
         self._l_child._validate_transform(new_transform)
         self._r_child._validate_transform(new_transform)
 
-    def _append_world_transform(self, new_transform):
-        # override the append world transform so children are moved too
-        super()._append_world_transform(new_transform)
-        self._l_child.transform(new_transform)
-        self._r_child.transform(new_transform)
-
 
 def union(s0: Intersectable, s1: Intersectable) -> CSGSurface:
     return CSGSurface(s0, s1, Operation.UNION)
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 12730e5..2ee89e0 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -144,11 +144,14 @@ class WorldObject(CountedObject):
         # a transform that is rejected must not change anything, so check it before the first object is updated
         self._validate_transform(new_transform)
 
-        self._world_coordinate_transform = np.matmul(
-            new_transform, self._world_coordinate_transform
-        )
-        # update the functions in the watch list
-        self._notify_watchers()
+        # parts are carried along, an object that is a part in several ways (e.g. of two members of a group, or of both
+        # children of a composite) must still be moved only once
+        for moved_object in (self, *self._all_parts()):
+            moved_object._world_coordinate_transform = np.matmul(
+                new_transform, moved_object._world_coordinate_transform
+            )
+            # update the functions in the watch list
+            moved_object._notify_watchers()
 
     def _notify_watchers(self):
         [fn() for fn in self.var_watchlist]
@@ -160,6 +163,16 @@ class WorldObject(CountedObject):
         """
         return ()
 
+    def _all_parts(self) -> tuple:
+        """
+        The parts of this object along with all of their parts, every one of them once.
+        """
+        all_parts = {}
+        for part in self._parts:
+            for nested_part in (part, *part._all_parts()):
+                all_parts.setdefault(id(nested_part), nested_part)
+        return tuple(all_parts.values())
+
     def get_position(self):
         # check if the position is valid, if not update it and return
         if not self._pos_valid:
@@ -324,25 +337,6 @@ class ObjectGroup(WorldObject, collections.UserList):
         for surface in self.data:
             surface._validate_transform(new_transform)
 
-    def _append_world_transform(self, new_transform):
-        super()._append_world_transform(
-            new_transform
-        )  # update the Groups world transform matrix
-
-        # iterate over all surfaces in the group and update their transform matrices, surfaces that are parts of another
-        # member are carried along by that member
-        moved_surfaces = {id(part) for surface in self.data for part in self._all_parts(surface)}
-        for surface in self.data:
-            if id(surface) not in moved_surfaces:
-                moved_surfaces.add(id(surface))
-                surface.transform(new_transform)
-
-    @classmethod
-    def _all_parts(cls, surface):
-        for part in surface._parts:
-            yield part
-            yield from cls._all_parts(part)
-
 
 class Intersectable(WorldObject, abc.ABC):
     """
-- 
2.43.0

