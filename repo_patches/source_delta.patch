From d16f6a29a95dfa78e7f084ee2afeb2d71966d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:01 +0000
Subject: [PATCH 01/87] fix: OrderedCollection.replace() by position after a
 removal, or with an object already present

The position was used as an index into the internal list, which has holes after
remove(): the wrong object was replaced (or KeyError raised), a negative position
broke the order, and an object that was already elsewhere in the collection was
kept twice.
---
 py_gnome/gnome/utilities/orderedcollection.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 0bfc136..9879b76 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -137,8 +137,7 @@ class OrderedCollection(object):
                             f'expected {self.dtype}, got {type(new_elem)}')
 
         if isinstance(ident, int):
-            l__key = self._s_id(self._elems[ident])
-            idx = ident
+            l__key = self._s_id(self.get(ident))
         else:
             if ident in self._d_index:
                 l__key = ident
@@ -146,10 +145,16 @@ class OrderedCollection(object):
                 raise KeyError('Cannot find object by this "id" in '
                                'OrderedCollection')
 
-            idx = self._d_index[l__key]
+        idx = self._d_index[l__key]
 
         # found existing object
         del self._d_index[l__key]
+
+        # new_elem can only be in the collection once
+        old_idx = self._d_index.get(self._s_id(new_elem))
+        if old_idx is not None:
+            self._elems[old_idx] = None
+
         self._elems[idx] = new_elem
         self._d_index[self._s_id(new_elem)] = idx
         self.fire_event('replace', new_elem)  # returns the newly added object
-- 
2.43.0


From 04de0c0d9d950ba2852c74befb9d2555382ddc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:01 +0000
Subject: [PATCH 02/87] fix: OrderedCollection slices with negative or out of
 range bounds

oc[-2:] returned the whole collection shifted, oc[:20] raised IndexError and
oc[::-1] was empty: use slice.indices(), so that slicing works as for lists.
---
 py_gnome/gnome/utilities/orderedcollection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 9879b76..5fadae6 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -207,10 +207,7 @@ class OrderedCollection(object):
 
     def _slice_attr(self, ident):
         'support for slice operations like a list'
-        start = (ident.start, 0)[ident.start is None]
-        stop = (ident.stop, len(self))[ident.stop is None]
-        step = (ident.step, 1)[ident.step is None]
-        return (start, stop, step)
+        return ident.indices(len(self))
 
     def __getitem__(self, ident):
         'slicing works just like it does for lists'
-- 
2.43.0


From c4b73ab100820df00b763e2be799a78da82941ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:38 +0000
Subject: [PATCH 03/87] fix: outputters skip every step after a suppressed zero
 step, and mishandle backward runs

With output_zero_step=False and no output_timestep nothing was written until
the last step.  In a backward run output_start_time was compared in the
wrong direction and the time since the last output drifted.
---
 py_gnome/gnome/outputters/outputter.py | 27 ++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 5641998..9a130c3 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -295,31 +295,34 @@ class Outputter(GnomeId):
         d = timedelta(seconds=time_step)
         if self.output_start_time is not None:
             if self.output_start_time != self._model_start_time:
-                if model_time + d < self.output_start_time:
+                # seconds left until the start of the output, in the
+                # direction of the run
+                until_start = (self.output_start_time
+                               - (model_time + d)).total_seconds()
+                if time_step < 0:
+                    until_start = -until_start
+
+                if until_start > 0:
                     self._write_step = False
                     return
 
-                if model_time + d == self.output_start_time:
+                if self._is_first_output:
                     self._write_step = True
                     self._is_first_output = False
                     return
 
-                if ((model_time + d > self.output_start_time and time_step > 0) or
-                    (model_time + d < self.output_start_time and time_step < 0)):
-                    if self._is_first_output:
-                        self._write_step = True
-                        self._is_first_output = False
-                        return
-
         if self.output_single_step:
             self._write_step = False
             return
 
-        if self._output_timestep is not None:
+        if self._output_timestep is None:
+            # output every model time step
+            self._write_step = True
+        else:
             self._write_step = False
-            self._dt_since_lastoutput += time_step
+            self._dt_since_lastoutput += abs(time_step)
 
-            if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
+            if self._dt_since_lastoutput >= self._output_timestep:
                 self._write_step = True
                 self._dt_since_lastoutput = (self._dt_since_lastoutput %
                                              self._output_timestep)
-- 
2.43.0


From 2a2946fb323a013bbdc21950b1c7950c539de001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:38 +0000
Subject: [PATCH 04/87] fix: write_output_post_run follows the same schedule as
 a live run

The last step kept the decision of the step before it, and backward runs
used timedelta.seconds, which is not the (negative) time step.
---
 py_gnome/gnome/outputters/outputter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 9a130c3..314f69d 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -470,12 +470,12 @@ class Outputter(GnomeId):
         last_step = False
 
         for step_num in range(num_time_steps):
-            if (step_num > 0 and step_num < num_time_steps - 1):
+            if step_num > 0:
                 next_ts = (self.cache.load_timestep(step_num).items()[0].
                            current_time_stamp)
                 ts = next_ts - model_time
 
-                self.prepare_for_model_step(ts.seconds, model_time)
+                self.prepare_for_model_step(ts.total_seconds(), model_time)
 
             if step_num == num_time_steps - 1:
                 last_step = True
-- 
2.43.0


From a1bb4550a29a9b8db11a4ca1d90d1c63358892e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:54 +0000
Subject: [PATCH 05/87] fix: element ids restart at 0 for every run of every
 spill container

The 'id' array type was shared by all containers of the process and never
reset, so a rewound model (or a second model) did not reproduce its ids and
the uncertain elements did not get the ids of their certain twins.
---
 py_gnome/gnome/spill_container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index a7332e1..b459223 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -13,7 +13,7 @@ import numpy as np
 
 from gnome.basic_types import fate as bt_fate
 from gnome.basic_types import oil_status
-from gnome.array_types import (default_array_types)
+from gnome.array_types import (default_array_types, gat)
 
 from gnome.utilities.orderedcollection import OrderedCollection
 from gnome import AddLogger
@@ -825,6 +825,8 @@ class SpillContainer(AddLogger, SpillContainerData):
                 s.prepare_for_model_run(time_step)
         ats = default_array_types.copy()
         ats.update(array_types)
+        # every run of every container numbers its own elements from 0
+        ats['id'] = gat('id')
         self._array_types = ats
 
         # if self._substances_spills is None:
-- 
2.43.0


From 0bb120f48d3d67b47ef305eaf47cbea81321dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:09 +0000
Subject: [PATCH 06/87] fix: PointLineRelease and SubsurfaceRelease honour
 num_per_timestep

The constructors dropped it, so 1000 elements were released instead of a fixed
number per time step; setting it to None raised a TypeError.
---
 py_gnome/gnome/spills/release.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a4a443d..66644f2 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -288,7 +288,7 @@ class Release(GnomeId):
             method referenced by num_elements_to_release
         '''
         self._num_per_timestep = val
-        if val is not None or val < 0:
+        if val is not None:
             self._num_elements = None
 
     @property
@@ -571,6 +571,7 @@ class PointLineRelease(Release):
         super(PointLineRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                **kwargs)
 
@@ -1451,6 +1452,7 @@ class SubsurfaceRelease(PointLineRelease):
         super(SubsurfaceRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                start_position = start_position,
                                                end_position = end_position,
-- 
2.43.0


From a446b62f0160792627c9bbdf5cc0fd683b6b9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:09 +0000
Subject: [PATCH 07/87] fix: rewinding a line or polygon release forgets what
 the previous run released

The volume released so far was carried over to the next run, which then
started from different initial slick areas.
---
 py_gnome/gnome/spills/release.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 66644f2..a7673a6 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -669,10 +669,7 @@ class PointLineRelease(Release):
                                         variables=[lon_ts, lat_ts, z_ts])
 
     def rewind(self):
-        self._prepared = False
-        self._mass_per_le = 0
-        self._release_ts = None
-        self._pos_ts = None
+        super(PointLineRelease, self).rewind()
 
     def prepare_for_model_run(self, ts):
         super(PointLineRelease, self).prepare_for_model_run(ts)
@@ -889,12 +886,9 @@ class PolygonRelease(Release):
         return [geo_routines.geo_area_of_polygon(p) for p in self.polygons]
 
     def rewind(self):
-        self._prepared = False
-        self._mass_per_le = 0
-        self._release_ts = None
+        super(PolygonRelease, self).rewind()
         self._tris = None
         self._weights = None
-        #self._pos_ts = None
 
     def get_polys_as_tris(self, polys, weights=None):
         #decomposes a
-- 
2.43.0


From 7f79c512588cc9659329408ab8e2b4ecc649d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:09 +0000
Subject: [PATCH 08/87] fix: setting PolygonRelease.polygons raised NameError

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a7673a6..95388cb 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -846,7 +846,7 @@ class PolygonRelease(Release):
     @polygons.setter
     def polygons(self, polys):
         #polygons must be list of shapely or geojson (Multi)Polygon
-        for feat, poly in zip(self.features[:], poly):
+        for feat, poly in zip(self.features[:], polys):
             feat.geometry = geojson.loads(geojson.dumps(poly.__geo_interface__))
 
     @property
-- 
2.43.0


From fbec2355b8e45cbb99ad05a6a36ca35e152d21ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:45 +0000
Subject: [PATCH 09/87] fix: a model with a user defined weatherer next to
 another weatherer could not run

weatherer_sort() returned None, which cannot be ordered.
---
 py_gnome/gnome/weatherers/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/weatherers/__init__.py b/py_gnome/gnome/weatherers/__init__.py
index 9946e2e..c764c63 100644
--- a/py_gnome/gnome/weatherers/__init__.py
+++ b/py_gnome/gnome/weatherers/__init__.py
@@ -84,9 +84,9 @@ standard_weatherering_sets = {'standard': ('evaporation',
 
 def weatherer_sort(weatherer):
     '''
-        Returns an int describing the sorting order of the weatherer
-        or None if an order is not defined for the weatherer
+        Returns an int describing the sorting order of the weatherer.
+        Weatherers with no defined order come last.
 
         :param weatherer: weatherer instance
     '''
-    return weatherers_idx.get(weatherer.__class__)
+    return weatherers_idx.get(weatherer.__class__, len(sort_order))
-- 
2.43.0


From 3a2f25c4165d1fe5c417f965cc4f75b5259eb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 10/87] fix: in a backwards run a release before the model
 start time was released at once

---
 py_gnome/gnome/spills/release.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 95388cb..6f1624f 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -134,6 +134,9 @@ class Release(GnomeId):
     """
     _schema = BaseReleaseSchema
 
+    # set by prepare_for_model_run()
+    _run_backwards = False
+
     def __init__(self,
                  release_time=None,
                  num_elements=None,
@@ -401,6 +404,15 @@ class Release(GnomeId):
                                               time=t,
                                               data=np.linspace(0, max_release, num_ts + 1).astype(int))
 
+    def _is_released(self, current_time):
+        '''
+        has the release time been reached at current_time? Time runs towards
+        the past in a backwards run.
+        '''
+        if self._run_backwards:
+            return current_time <= self.release_time
+        return current_time >= self.release_time
+
     def num_elements_after_time(self, current_time):
         '''
         Returns the number of elements expected to exist at current_time.
@@ -410,7 +422,7 @@ class Release(GnomeId):
         '''
         if not self._prepared:
             return 0
-        if current_time < self.release_time:
+        if not self._is_released(current_time):
             return 0
         return int(math.ceil(self._release_ts.at(None, current_time, extrapolate=True)))
 
@@ -420,6 +432,7 @@ class Release(GnomeId):
         '''
         if self._prepared:
             self.rewind()
+        self._run_backwards = ts < 0
         if ts < 1 and (self.end_release_time != self.release_time):
             raise ValueError('Backwards run is not valid for continuous releases.  \
                 Use an instantaneous release or run forwards.')
@@ -686,7 +699,7 @@ class PointLineRelease(Release):
         # if time_step == 0:
         #     time_step = 1  # to deal with initializing position in instantaneous release case
         if self.release_duration == 0 and start_time != end_time: # special case for instantaneous spill with release after model start
-            if self.release_time <= end_time and self.release_time>=start_time:
+            if min(start_time, end_time) <= self.release_time <= max(start_time, end_time):
                  start_time = end_time = self.release_time
         if start_time == end_time:
             end_time += timedelta(seconds=1)
@@ -1086,7 +1099,7 @@ class GridRelease(Release):
         '''
         if not self._prepared:
             return 0
-        if current_time < self.release_time:
+        if not self._is_released(current_time):
             return 0
         else:
             return self.num_elements
-- 
2.43.0


From bb38550677a21b43960511ea7cc34c0fc5bf3f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 11/87] fix: GridRelease that retains initial positions raised
 NameError

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 6f1624f..a5d4b5d 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1136,7 +1136,7 @@ class GridRelease(Release):
         sc['init_mass'][sl] = self._mass_per_le
 
         if self.retain_initial_positions:
-            sc['init_positions'][sl] = pos
+            sc['init_positions'][sl] = positions
 
 
 
-- 
2.43.0


From 462e2a6a0c4d40b1b0d867b12cf6aaa8e76de237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:38 +0000
Subject: [PATCH 12/87] fix: a delayed outputter written again post run lost
 its first output

---
 py_gnome/gnome/outputters/outputter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 314f69d..eba0a2e 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -256,6 +256,7 @@ class Outputter(GnomeId):
             self._write_step = True
 
         self._dt_since_lastoutput = 0
+        self._is_first_output = True
         self._middle_of_run = True
 
         # kludge to catch special case of single output at the model start time
-- 
2.43.0


From 38b0824ada75daba6d56aa9b56e7898e8e3a36a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:51 +0000
Subject: [PATCH 13/87] fix: elements jumped over land on long moves when
 following the coarser rasters

Walking the line on a coarser raster misses cells that the line crosses on
the finest one, so that check_land_layers() reported no land for a part of
the moves that do cross it. Reject on the coarser rasters only when there is
no land at all in the box of the move.
---
 py_gnome/gnome/cy_gnome/cy_land_check.pyx | 94 ++++++++++++++++-------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/cy_land_check.pyx b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
index 847ad1d..b1efcac 100644
--- a/py_gnome/gnome/cy_gnome/cy_land_check.pyx
+++ b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
@@ -12,7 +12,7 @@ from gnome.utilities.geometry.cy_point_in_polygon import points_in_poly
 cimport numpy as cnp
 from cpython.mem cimport PyMem_Malloc, PyMem_Free
 from libc.stdint cimport int16_t, int32_t, uint8_t, uint32_t
-from libc.stdlib cimport abs, div, div_t
+from libc.stdlib cimport abs
 from libcpp cimport bool
 
 cimport gnome.cy_gnome.type_defs as type_defs
@@ -171,6 +171,48 @@ cdef bool c_find_first_pixel(uint8_t* grid,
 
 
 
+cdef bool c_land_in_box(uint8_t* grid,
+                        int32_t m,
+                        int32_t n,
+                        int32_t ratio,
+                        int32_t x0,
+                        int32_t y0,
+                        int32_t x1,
+                        int32_t y1,
+                        ):
+    """
+    Is there any land in the part of a coarser grid that covers the box
+    between two points of the finest grid?
+
+    A coarser line is not a coarser version of the finer line: following it
+    can miss cells that the finer line crosses. The box can't.
+
+    :param grid: the coarser raster, size (m, n)
+    :param ratio: size of its cells
+    :param x0, y0, x1, y1: coordinates on the finest raster.
+    """
+    cdef int32_t i, j, i_min, i_max, j_min, j_max
+
+    i_min = min(x0, x1)
+    i_max = max(x0, x1)
+    j_min = min(y0, y1)
+    j_max = max(y0, y1)
+
+    if i_max < 0 or j_max < 0:
+        return False
+
+    i_min = max(i_min, 0) // ratio
+    j_min = max(j_min, 0) // ratio
+    i_max = min(i_max // ratio, m - 1)
+    j_max = min(j_max // ratio, n - 1)
+
+    for i in range(i_min, i_max + 1):
+        for j in range(j_min, j_max + 1):
+            if grid[i * n + j] != 0:
+                return True
+    return False
+
+
 def find_first_pixel(grid, pt1, pt2):
     """
     This finds the first non-zero pixel that is encountered when following
@@ -304,12 +346,10 @@ def check_land_layers(grid_layers,
         This version will look through multiple layers of raster map
 
         """
-        cdef int32_t  prev_x, prev_y, hit_x, hit_y, cur_ratio, layer, coarse_pos_x, num_ratios
+        cdef int32_t  prev_x, prev_y, hit_x, hit_y, layer, num_ratios
         cdef uint32_t i, num_le
         cdef int32_t m, n
         cdef bool did_hit
-        cdef int32_t* coarse_pos = <int32_t*> PyMem_Malloc (2*sizeof(int32_t))
-        cdef int32_t* coarse_end = <int32_t*> PyMem_Malloc (2*sizeof(int32_t))
 
         num_ratios = grid_ratios.shape[0]
         cdef uint8_t** dataptrs = <uint8_t**> PyMem_Malloc(num_ratios*sizeof(uint8_t *))
@@ -334,23 +374,29 @@ def check_land_layers(grid_layers,
             #begin the walk. If a hit is registered on the current grid, drop down one level and continue the walk.
             #If a hit is registered on the lowest level, then LE has landed.
             while True:
-                coarse_pos[0] = div(positions[i,0], grid_ratios[layer]).quot
-                coarse_pos[1] = div(positions[i,1], grid_ratios[layer]).quot
-                coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
-                coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
-                cur_ratio = grid_ratios[layer]
-                did_hit = c_find_first_pixel(dataptrs[layer],
-                                         widths[layer],
-                                         heights[layer],
-                                         coarse_pos[0],
-                                         coarse_pos[1],
-                                         coarse_end[0],
-                                         coarse_end[1],
-                                         &prev_x,
-                                         &prev_y,
-                                         &hit_x,
-                                         &hit_y,
-                                         )
+                if layer < num_ratios - 1:
+                    did_hit = c_land_in_box(dataptrs[layer],
+                                            widths[layer],
+                                            heights[layer],
+                                            grid_ratios[layer],
+                                            positions[i, 0],
+                                            positions[i, 1],
+                                            end_positions[i, 0],
+                                            end_positions[i, 1],
+                                            )
+                else:
+                    did_hit = c_find_first_pixel(dataptrs[layer],
+                                                 widths[layer],
+                                                 heights[layer],
+                                                 positions[i, 0],
+                                                 positions[i, 1],
+                                                 end_positions[i, 0],
+                                                 end_positions[i, 1],
+                                                 &prev_x,
+                                                 &prev_y,
+                                                 &hit_x,
+                                                 &hit_y,
+                                                 )
                 if did_hit:
                     if layer == num_ratios - 1:
                         # hit on the lowest layer (confirmed land hit)
@@ -363,18 +409,12 @@ def check_land_layers(grid_layers,
                     else:
                         # possible hit, go down a layer and try again
                         layer += 1
-                        coarse_pos[0] = div(positions[i,0], grid_ratios[layer]).quot
-                        coarse_pos[1] = div(positions[i,1], grid_ratios[layer]).quot
-                        coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
-                        coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
                 else:
                     # didn't hit land -- can move the LE
                     positions[i, 0] = end_positions[i, 0]
                     positions[i, 1] = end_positions[i, 1]
                     break
 
-        PyMem_Free(coarse_pos)
-        PyMem_Free(coarse_end)
         PyMem_Free(dataptrs)
         PyMem_Free(widths)
         PyMem_Free(heights)
-- 
2.43.0


From d499e4eb4ef135e4175282816d5ea8fdef4dae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:14 +0000
Subject: [PATCH 14/87] fix: RasterMap.in_water() looked up points off the
 raster in the raster

_in_water_pixel() tested the method instead of calling it, so that points on
the map but off the raster raised IndexError, or wrapped around to the other
side for negative indices.
---
 py_gnome/gnome/maps/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 7411f00..cef39f9 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1022,7 +1022,7 @@ class RasterMap(GnomeMap):
     def _in_water_pixel(self, coord):
         # if  off the raster, so must be in water,
         # unless not on map, which should have already been checked.
-        if not self._off_raster:
+        if self._off_raster(coord):
             return True
         else:
             return not self.raster[coord[0], coord[1]] & self.land_flag
-- 
2.43.0


From 0266d8bedd64f950482bfd8947f7af834dd8d889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:48 +0000
Subject: [PATCH 15/87] fix: elements released on land refloated to longitude
 and latitude zero

Elements released on land are marked as beached right away, but their last
water position was left at its initial value, so that refloating moved them
to (0, 0).
---
 py_gnome/gnome/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 757e1cd..874006f 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1256,6 +1256,9 @@ class Model(GnomeId):
                 # for sc in self.spills.items():
                 on_land = self.map.on_land_points(sc['positions'][-num_released:])
                 sc['status_codes'][-num_released:][on_land] = oil_status.on_land
+                # never been in the water: that's where they'd refloat
+                sc['last_water_positions'][-num_released:][on_land] = \
+                    sc['positions'][-num_released:][on_land]
 
                 for item in self.weatherers:
                     if item.on:
-- 
2.43.0


From 432a068fbe232323c1eb5c1c9af8d3e13e718a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:31 +0000
Subject: [PATCH 16/87] fix: cleanup and beaching work for exactly the part of
 each (sub-)step within their active range

---
 py_gnome/gnome/weatherers/cleanup.py         | 23 ++++++++++++--------
 py_gnome/gnome/weatherers/manual_beaching.py |  7 +++++-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7ba87ee..b2ca700 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -61,16 +61,12 @@ class RemoveMass(object):
         if not self.active:
             return
 
-        self._timestep = time_step
-        dt = timedelta(seconds=time_step)
+        # only the part of this time step that is within the active range
+        start = max(model_time, self.active_range[0])
+        stop = min(model_time + timedelta(seconds=time_step),
+                   self.active_range[1])
 
-        if (model_time < self.active_range[0]):
-            self._timestep = time_step - (self.active_range[0] -
-                                          model_time).total_seconds()
-
-        if (self.active_range[1] < model_time + dt):
-            self._timestep = (self.active_range[1] -
-                              model_time).total_seconds()
+        self._timestep = max((stop - start).total_seconds(), 0.0)
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
@@ -348,6 +344,9 @@ class Skimmer(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this could be a sub-step of what prepare_for_model_step() was given
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='skim'):
 
             if len(data['mass']) == 0:
@@ -692,6 +691,9 @@ class Burn(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this could be a sub-step of what prepare_for_model_step() was given
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='burn'):
             if len(data['mass']) == 0:
                 return
@@ -857,6 +859,9 @@ class ChemicalDispersion(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # this could be a sub-step of what prepare_for_model_step() was given
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='disperse'):
             if len(data['mass']) == 0:
                 continue
diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index b95f09a..a986756 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -268,10 +268,15 @@ class Beaching(RemoveMass, Weatherer):
         if not self.active or len(sc) == 0:
             return
 
+        # this could be a sub-step of what prepare_for_model_step() was given
+        self._set__timestep(time_step, model_time)
+        # beaching may start within the time step
+        start_time = max(model_time, self.active_range[0])
+
         for substance, data in sc.itersubstancedata(self.array_types):
             if len(data['mass']) == 0:
                 continue
-            rm_mass = self._remove_mass(self._timestep, model_time, substance)
+            rm_mass = self._remove_mass(self._timestep, start_time, substance)
             rm_mass_frac = rm_mass / data['mass'].sum()
             if rm_mass_frac > 1.0:
                 rm_mass_frac = 1.0
-- 
2.43.0


From 02cecdf80cfd2133094301917642d9fc1c6386e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:31 +0000
Subject: [PATCH 17/87] fix: an element's fate follows the position it was
 moved to, not the one it left

---
 py_gnome/gnome/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 874006f..323d86d 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1005,13 +1005,13 @@ class Model(GnomeId):
                 tbr_mask = sc['status_codes'] == oil_status.off_maps
                 sc['status_codes'][tbr_mask] = oil_status.to_be_removed
 
+                # the final move to the new positions
+                (sc['positions'])[:] = sc['next_positions']
+
                 substances = sc.get_substances(False)
                 if len(substances) > 0:
                     self._update_fate_status(sc)
 
-                # the final move to the new positions
-                (sc['positions'])[:] = sc['next_positions']
-
     def _update_fate_status(self, sc):
         '''
         WeatheringData used to perform this operation in weather_elements;
-- 
2.43.0


From 004f1dd6472ce43a6484261056dfb845fcabcffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:31 +0000
Subject: [PATCH 18/87] fix: elements that left the map in a step no longer
 weather in it

---
 py_gnome/gnome/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 323d86d..9b95255 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1025,6 +1025,10 @@ class Model(GnomeId):
             on_land_mask = sc['status_codes'] == oil_status.on_land
             sc['fate_status'][on_land_mask] = fate.non_weather
 
+            # their mass is already counted as off_maps
+            gone_mask = sc['status_codes'] == oil_status.to_be_removed
+            sc['fate_status'][gone_mask] = fate.non_weather
+
             w_mask = ((sc['status_codes'] == oil_status.in_water)
                       & ~(sc['fate_status'] & fate.skim == fate.skim)
                       & ~(sc['fate_status'] & fate.burn == fate.burn)
-- 
2.43.0


From 5983ad724155b731f3f53ebfb7f632118a4bb934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 19/87] fix: Model.weathering_substeps was lost on save and on
 a JSON round trip

---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 9b95255..3f14a0c 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -96,7 +96,7 @@ from gnome.utilities.appearance import AppearanceSchema
 class ModelSchema(ObjTypeSchema):
     'Colander schema for Model object'
     time_step = SchemaNode(Float())
-    weathering_substeps = SchemaNode(Int(), read_only=True)
+    weathering_substeps = SchemaNode(Int())
     start_time = SchemaNode(
         extend_colander.LocalDateTime(),
         validator=validators.convertible_to_seconds
-- 
2.43.0


From eef986a0377a574bd29cf08d1377a81ae3beb301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 20/87] fix: the density of a NonWeatheringSubstance was lost
 on save and on a JSON round trip

---
 py_gnome/gnome/spills/substance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/substance.py b/py_gnome/gnome/spills/substance.py
index fb81d66..b036d3b 100644
--- a/py_gnome/gnome/spills/substance.py
+++ b/py_gnome/gnome/spills/substance.py
@@ -57,7 +57,7 @@ class SubstanceSchema(ObjTypeSchema):
 
 
 class NonWeatheringSubstanceSchema(SubstanceSchema):
-    pass
+    standard_density = SchemaNode(Float(), save=True, update=True)
 
 
 class Substance(GnomeId):
-- 
2.43.0


From b6f7c7190a3416d864ceb39d143a47a015853e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 21/87] fix: a saved GridRelease could not be loaded

---
 py_gnome/gnome/spills/release.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a5d4b5d..c1cbd8f 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1038,7 +1038,8 @@ class GridRelease(Release):
 
     _schema = GridReleaseSchema
 
-    def __init__(self, release_time, bounds, resolution, release_mass=0):
+    def __init__(self, release_time, bounds, resolution, release_mass=0,
+                 **kwargs):
         """
         Release from a 2-D grid of points.
 
@@ -1077,7 +1078,8 @@ class GridRelease(Release):
         super().__init__(release_time=release_time,
                          # custom_positions=positions,
                          # num_elements=len(positions),
-                         release_mass=release_mass
+                         release_mass=release_mass,
+                         **kwargs
                          )
     @property
     def num_elements(self):
@@ -1111,9 +1113,6 @@ class GridRelease(Release):
         .. note:: this releases all the elements at their initial positions at
             the end_time
         """
-        print("called initialize_elements")
-        print(to_rel, start_time, end_time)
-
         positions = self._compute_grid_points()
 
         num_locs = len(positions)
-- 
2.43.0


From 63216f0e8c84daa44fd0ce10f5cac838cd074eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 22/87] fix: a saved OilBudgetOutput could not be loaded, and
 lost its filename and on

---
 py_gnome/gnome/outputters/oil_budget.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 665c5ee..72bda73 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -10,21 +10,32 @@ import csv
 from .weathering import BaseMassBalanceOutputter
 from .outputter import OutputterFilenameMixin
 from . import BaseOutputterSchema
-from gnome.persist import Boolean, SchemaNode
+from gnome.persist import (Boolean, FilenameSchema, LocalDateTime,
+                           SchemaNode, String, drop)
 
 
 class OilBudgetOutputSchema(BaseOutputterSchema):
     # these fields are saved in the base class so need to override
     #pass
+    filename = FilenameSchema(
+        missing=drop, save=True, update=True, test_equal=False
+    )
     output_zero_step = SchemaNode(
-        Boolean(), save=False, update=False
+        Boolean(), save=False, update=False, read_only=True
     )
     output_last_step = SchemaNode(
-        Boolean(), save=False, update=False
+        Boolean(), save=False, update=False, read_only=True
     )
     output_single_step = SchemaNode(
-        Boolean(), save=False, update=False
+        Boolean(), save=False, update=False, read_only=True
+    )
+    output_start_time = SchemaNode(
+        LocalDateTime(), save=False, update=False, read_only=True
     )
+    surface_conc = SchemaNode(
+        String(allow_empty=True), save=False, update=False, read_only=True
+    )
+
 
 class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
     """
@@ -73,7 +84,7 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
 
         super(OilBudgetOutput, self).__init__(filename=filename,
                                               cache=None,
-                                              on=True,
+                                              on=on,
                                               output_timestep=output_timestep,
                                               # these always should be this way for this
                                               # outputter
-- 
2.43.0


From a66dee96404473da0949bcf2a58c6975c0e53a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 23/87] fix: Beaching could not be saved

---
 py_gnome/gnome/weatherers/manual_beaching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index a986756..10bab7f 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -22,7 +22,7 @@ from gnome.persist import (validators, base_schema, DefaultTupleSchema,
 
 from .core import WeathererSchema
 from .cleanup import RemoveMass
-from gnome.environment.environment import WaterSchema
+from gnome.environment import WaterSchema
 
 
 class BeachingTupleSchema(DefaultTupleSchema):
-- 
2.43.0


From 70eac0ab7f2be406d5907180943bc677dc1b1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 24/87] fix: a CurrentMover with a SteadyUniformCurrent could
 not be saved

---
 py_gnome/gnome/movers/py_current_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index f76dd6f..bd07208 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -14,7 +14,7 @@ from gnome.utilities.projections import FlatEarthProjection
 from gnome.utilities.time_utils import TZOffset
 
 
-from gnome.environment import GridCurrent
+from gnome.environment import GridCurrent, SteadyUniformCurrent
 from gnome.environment.gridded_objects_base import Grid_U, VectorVariableSchema
 
 from gnome.movers.movers import TimeRangeSchema, PyMoverSchema
@@ -30,7 +30,8 @@ class CurrentMoverSchema(PyMoverSchema):
     current = GeneralGnomeObjectSchema(save=True, update=True,
                                        save_reference=True,
                                        acceptable_schemas=[VectorVariableSchema,
-                                                           GridCurrent._schema]
+                                                           GridCurrent._schema,
+                                                           SteadyUniformCurrent._schema]
                                        )
     uncertain_along = SchemaNode(
         Float(), missing=drop, save=True, update=True
-- 
2.43.0


From 6b6ce9330f65adf22b9918143a40cf1a3a169c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 25/87] fix: GnomeId.load() could not load a .json file

---
 py_gnome/gnome/gnomeobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index bbe17c3..b38bc46 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -968,7 +968,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 with open(saveloc, 'r') as fp:
                     json_ = json.load(fp)
 
-                if 'obj_type' in json:
+                if 'obj_type' in json_:
                     if class_from_objtype(json_['obj_type']) is not cls:
                         raise ValueError("{} does not contain a {}"
                                          .format(saveloc, cls.__name__))
-- 
2.43.0


From 87ae9af984c6e424f47b82b989be16a11ecb2969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 26/87] fix: objects with braces in, or a period in front of,
 their name could not be saved and loaded

---
 py_gnome/gnome/gnomeobject.py         | 11 ++++++-----
 py_gnome/gnome/persist/base_schema.py |  5 ++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index b38bc46..0e23b9b 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -3,7 +3,6 @@
 import os
 import copy
 import logging
-import glob
 import json
 import zipfile
 import tempfile
@@ -942,10 +941,12 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                     return cls._schema().load(json_, saveloc=saveloc,
                                               refs=refs)
                 else:
-                    search = os.path.join(saveloc, '*.json')
-
-                    for fn in glob.glob(search):
-                        with open(fn) as fp:
+                    # not glob: that does not find names that start with
+                    # a period, and gives a meaning to "[" in the folder name
+                    for fn in os.listdir(saveloc):
+                        if not fn.endswith('.json'):
+                            continue
+                        with open(os.path.join(saveloc, fn)) as fp:
                             json_ = json.load(fp)
                             if 'obj_type' in json_:
                                 obj_cls = class_from_objtype(json_['obj_type'])
diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 287260d..a1b8bf7 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -992,13 +992,12 @@ def gen_unique_filename(filename_in, zipfile_):
     filename_in = sanitize_string(filename_in)
     existing_files = set(zipfile_.namelist())
     file_name, extension = get_file_name_ext(filename_in)
-    fmtstring = file_name + '{0}' + extension
-    new_fn = fmtstring.format('')
+    new_fn = file_name + extension
 
     for i in range(255):
         if new_fn not in existing_files:
             return new_fn
         else:
-            new_fn = fmtstring.format(' (' + str(i) + ')')
+            new_fn = file_name + ' (' + str(i) + ')' + extension
 
     raise ValueError('Same file name used too many times')
-- 
2.43.0


From e9147f9584025af3ea2c84a44999d2d4257f85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 27/87] fix: of different data files with the same name only
 the first was saved

---
 py_gnome/gnome/persist/base_schema.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index a1b8bf7..79e5dcb 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -391,8 +391,14 @@ class ObjType(SchemaType):
         d_fname = os.path.split(raw_path)[1]
         # add datafile to zip archive
 
-        if d_fname not in zipfile_.namelist():
-            zipfile_.write(raw_path, d_fname)
+        if d_fname in zipfile_.namelist():
+            with open(raw_path, 'rb') as fp:
+                if fp.read() == zipfile_.read(d_fname):
+                    return d_fname
+            # a different file with the same name
+            d_fname = gen_unique_filename(d_fname, zipfile_)
+
+        zipfile_.write(raw_path, d_fname)
 
         return d_fname
 
-- 
2.43.0


From c28df0e70452864dc5cf7e4d4bf2414424f92889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 28/87] fix: ChemicalDispersion.efficiency None became 1.0 on
 save and on a JSON round trip

---
 py_gnome/gnome/weatherers/cleanup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index b2ca700..ddac857 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -734,7 +734,7 @@ class Burn(CleanUpBase):
 class ChemicalDispersionSchema(WeathererSchema):
     fraction_sprayed = SchemaNode(Float(), save=True, update=True,
                                   validator=Range(0, 1.0))
-    efficiency = SchemaNode(Float(), save=True, update=True, missing=drop,
+    efficiency = SchemaNode(Float(), save=True, update=True, missing=None,
                             validator=Range(0, 1.0))
     #_rate = SchemaNode(Float(), save=True, update=True, missing=drop)
     waves = WavesSchema(save=True, update=True, missing=drop,
-- 
2.43.0


From 9fbda99961e72a5e284c894386c7af9d17cbdf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 29/87] fix: save() to an open ZipFile, or with overwrite=False
 to a new file, raised

---
 py_gnome/gnome/gnomeobject.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index 0e23b9b..f1bf0e8 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -833,7 +833,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
         # convert save location to a string
         # fixme: we should probably use pathlib in the rest of this instead,
         #        but this should work for now.
-        if saveloc is not None:
+        if not (saveloc is None or isinstance(saveloc, zipfile.ZipFile)):
             saveloc = os.fspath(saveloc)
 
         zipfile_ = None
@@ -853,6 +853,10 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 allowZip64=allowzip64
             )
 
+        elif isinstance(saveloc, zipfile.ZipFile):
+            # an open archive: add to it, and leave it open
+            zipfile_ = saveloc
+
         elif os.path.isdir(saveloc):
             # n = gnome.persist.base_schema.sanitize_string(self.name)
             # this is a filename, so we should be using this -- even though
@@ -872,7 +876,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
             # saveloc is file path
             if not (saveloc.endswith(".zip") or saveloc.endswith(".gnome")):
                 saveloc = saveloc + ".gnome"
-            if not overwrite:
+            if not overwrite and os.path.exists(saveloc):
                 if zipfile.is_zipfile(saveloc):
                     zipfile_ = zipfile.ZipFile(
                         saveloc, 'a',
@@ -897,6 +901,8 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
         if saveloc is None:
             log.info('Returning open zipfile in memory')
             return (obj_json, zipfile_, refs)
+        elif isinstance(saveloc, zipfile.ZipFile):
+            return (obj_json, saveloc, refs)
         else:
             zipfile_.close()
             return (obj_json, saveloc, refs)
-- 
2.43.0


From 31cb35f4c56c696bcd6fdcea6cc88b129762b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:15 +0000
Subject: [PATCH 30/87] fix: deserializing an object that is referenced twice
 duplicated the objects it references

---
 py_gnome/gnome/persist/base_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 79e5dcb..8d1d333 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -205,7 +205,7 @@ class ObjType(SchemaType):
                 log.info(refs[id_].name)
             except Exception as e:
                 log.warning('Could not log object name: ' + e.msg)
-            updated = refs[id_].update_from_dict(cstruct)
+            updated = refs[id_].update_from_dict(cstruct, refs=refs)
             if updated:
                 log.info('Updated object {0} from json'.format(refs[id_].name))
             return refs[id_]
-- 
2.43.0


From 22f96db75d0427e56b577f1765e2a2c1e94bd48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:15 +0000
Subject: [PATCH 31/87] fix: objects named with periods only were lost on save

---
 py_gnome/gnome/persist/base_schema.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 8d1d333..67b18a0 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -979,9 +979,10 @@ class ImageSize(TupleSchema):
 def get_file_name_ext(filename_in):
     # in case a path was passed as the name
     base_name = os.path.basename(filename_in)
-    file_name, extension = os.path.splitext(base_name)
+    # not os.path.splitext: that finds no extension in a name like '...json'
+    file_name, dot, extension = base_name.rpartition('.')
 
-    return file_name, extension
+    return file_name, dot + extension
 
 
 def sanitize_string(s):
-- 
2.43.0


From 9696908a2d378ca509f5c52a6471e2eb6f474fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:34 +0000
Subject: [PATCH 32/87] fix: NetCDFOutput ignored the name it was given, so a
 changed name was lost on save

---
 py_gnome/gnome/outputters/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 3d0bf86..33a682a 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -352,7 +352,8 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
         self.zip_filename = '{0}.{1}'.format(name, 'zip')
 
         # fixme: move to base class?
-        self.name = os.path.split(filename)[1]
+        if not kwargs.get('name'):
+            self.name = os.path.split(filename)[1]
 
         self.zip_output = zip_output
         if self.zip_output is True:
-- 
2.43.0


From 03b2848bb879c7b66ddf905b062e2ee52f613629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:34 +0000
Subject: [PATCH 33/87] fix: a saved Burn of oil thinner than 2 mm could not be
 loaded

---
 py_gnome/gnome/weatherers/cleanup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index ddac857..9156202 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -446,7 +446,9 @@ class Burn(CleanUpBase):
         :param bool on: whether object is on or not for the run
 
         '''
-        super(Burn, self).__init__(active_range=active_range,
+        # the active stop is computed in _init_rate_duration()
+        super(Burn, self).__init__(active_range=(active_range[0],
+                                                 InfDateTime('inf')),
                                    efficiency=efficiency,
                                    **kwargs)
 
-- 
2.43.0


From fc12b1f243cfa0805e832ef287a93664da9e3651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 34/87] fix: an outputter that is switched off could stop the
 run

---
 py_gnome/gnome/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 3f14a0c..d16b6a2 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1146,6 +1146,10 @@ class Model(GnomeId):
                        'step_time': self.model_time.isoformat(timespec='minutes')}
 
         for outputter in self.outputters:
+            if not outputter.on:
+                # it has not been prepared for the run either
+                continue
+
             if self.current_time_step == self.num_time_steps - 1:
                 output = outputter.write_output(self.current_time_step, islast_step=True)
             else:
-- 
2.43.0


From f1bf9297eedf08d31c15c9b30412f230c4d660cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:04 +0000
Subject: [PATCH 35/87] fix: a ShapeOutput could not run after its filename was
 updated from JSON

---
 py_gnome/gnome/outputters/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/shape.py b/py_gnome/gnome/outputters/shape.py
index 0a9a4a5..1c4f17c 100644
--- a/py_gnome/gnome/outputters/shape.py
+++ b/py_gnome/gnome/outputters/shape.py
@@ -137,7 +137,7 @@ class ShapeOutput(Outputter):
         self.spills = spills
         self.uncertain = uncertain
         if uncertain:
-            self.filename = self.filename.with_suffix('.zip')
+            self.filename = pathlib.Path(self.filename).with_suffix('.zip')
 
     def write_output(self, step_num, islast_step=False):
         """Dump a timestep's data into the shapefile"""
-- 
2.43.0


From 2b94319c41cadcf515389039581472cb683c49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:22 +0000
Subject: [PATCH 36/87] fix: NetCDFOutput of all data raised KeyError for
 substances with few components

---
 py_gnome/gnome/outputters/netcdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 33a682a..167251b 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -629,8 +629,13 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                                 shape = ('data',)
                                 chunksz = (self._chunksize,)
                             else:
-                                y_sz = d_dims[sc[var_name].shape[1]]
-                                shape = ('data', y_sz)
+                                y_len = sc[var_name].shape[1]
+                                if y_len not in d_dims:
+                                    # e.g. substances with one component
+                                    d_dims[y_len] = 'dim_{}'.format(y_len)
+                                    rootgrp.createDimension(d_dims[y_len],
+                                                            y_len)
+                                shape = ('data', d_dims[y_len])
                                 chunksz = (self._chunksize,
                                            sc[var_name].shape[1])
 
-- 
2.43.0


From 41e030fa3543a9fd0b8067cf78e62c10866968c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 37/87] fix: NetCDFOutput keeps certain and uncertain elements
 in their own places

One start index was shared by the two files; with different numbers of
elements in them data was overwritten or left with gaps.
---
 py_gnome/gnome/outputters/netcdf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 167251b..d7628ea 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -761,19 +761,21 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                     pc = rg_vars['particle_count']
                     pc[idx] = len(sc)
 
-                    _end_idx = self._start_idx + pc[idx]
+                    # each file has its own number of elements so far
+                    _start_idx = int(pc[:idx].sum()) if idx > 0 else 0
+                    _end_idx = _start_idx + len(sc)
 
                     # add the data:
                     for var_name in self.arrays_to_output:
                         # special case positions:
                         if var_name == 'longitude':
-                            rg_vars['longitude'][self._start_idx:_end_idx] = sc['positions'][:, 0]
+                            rg_vars['longitude'][_start_idx:_end_idx] = sc['positions'][:, 0]
                         elif var_name == 'latitude':
-                            rg_vars['latitude'][self._start_idx:_end_idx] = sc['positions'][:, 1]
+                            rg_vars['latitude'][_start_idx:_end_idx] = sc['positions'][:, 1]
                         elif var_name == 'depth':
-                            rg_vars['depth'][self._start_idx:_end_idx] = sc['positions'][:, 2]
+                            rg_vars['depth'][_start_idx:_end_idx] = sc['positions'][:, 2]
                         else:
-                            rg_vars[var_name][self._start_idx:_end_idx] = sc[var_name]
+                            rg_vars[var_name][_start_idx:_end_idx] = sc[var_name]
 
                     # write mass_balance data
                     if sc.mass_balance:
-- 
2.43.0


From 16af53aa987e3fd8f41df7b0d3b4ac37453cd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 38/87] fix: NetCDFOutput.read_data finds the closest time in
 backward runs

Times before the reference time always gave the first record.
---
 py_gnome/gnome/outputters/netcdf.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index d7628ea..f545cd7 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -954,11 +954,7 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                 if time is not None:
                     time_offset = nc.date2num(time, time_.units,
                                               calendar=time_.calendar)
-                    if time_offset < 0:
-                        'desired time is before start of model'
-                        index = 0
-                    else:
-                        index = abs(time_[:] - time_offset).argmin()
+                    index = abs(time_[:] - time_offset).argmin()
                 elif index is not None:
                     if index < 0:
                         index = len(time_) + index
-- 
2.43.0


From 0b021dfde0553ea9bf12fb893b6abd0a05aacf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 39/87] fix: TrajectoryGeoJsonOutput files hold the forecast
 elements

The uncertain collection, empty without uncertainty, was written over the
file of the forecast elements.
---
 py_gnome/gnome/outputters/geo_json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1d9c25d..8dbadf5 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -163,8 +163,10 @@ class TrajectoryGeoJsonOutput(Outputter):
                        'uncertain': uc_geojson}
 
         if self.output_dir:
-            output_info['output_filename'] = str(self.output_to_file(c_geojson, step_num))
-            self.output_to_file(uc_geojson, step_num)
+            output_info['output_filename'] = str(
+                self.output_to_file(FeatureCollection(c_features + uc_features),
+                                    step_num)
+            )
 
         return output_info
 
-- 
2.43.0


From 61699e32d3c4bf86a4d90dd28e80d647f9bc4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 40/87] fix: TrajectoryGeoJsonOutput honours round_data=False

---
 py_gnome/gnome/outputters/geo_json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 8dbadf5..9a9c050 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -200,7 +200,9 @@ class TrajectoryGeoJsonOutput(Outputter):
 
         # refactored to simply use the correct python type:
         if issubclass(data_array.dtype.type, float):
-            data = data_array.round(self.round_to).astype(float).tolist()
+            if self.round_data:
+                data_array = data_array.round(self.round_to)
+            data = data_array.astype(float).tolist()
         elif issubclass(data_array.dtype.type, np.integer):
             data = data_array.astype(int).tolist()
         else:
-- 
2.43.0


From 2ae1fcff9b7cf10b0eb91600cf86fb51b578112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 41/87] fix: BinaryOutput zips the files it wrote when the last
 step is not output

---
 py_gnome/gnome/outputters/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 10bdddf..2212982 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -158,7 +158,7 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
 
         if islast_step:
-            num_files = self.file_num + 1
+            num_files = self.file_num + (1 if self._write_step else 0)
             self._zip_binary_files(num_files)
             self.cleaned_up = True
 
-- 
2.43.0


From a27b0086165244beb7dac3a77904faacaed26661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 42/87] fix: ShapeOutput bundles of unzipped shapefiles hold
 all their parts

Only the .shp was bundled, which cannot be read without .shx and .dbf.
---
 py_gnome/gnome/outputters/shape.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/outputters/shape.py b/py_gnome/gnome/outputters/shape.py
index 1c4f17c..ab56d13 100644
--- a/py_gnome/gnome/outputters/shape.py
+++ b/py_gnome/gnome/outputters/shape.py
@@ -235,21 +235,18 @@ class ShapeOutput(Outputter):
         zipf_filename = os.path.join(self.tempdir.name, self.filenamestem)+'_bundle.zip'
         zipf = zipfile.ZipFile(zipf_filename, 'w')
         # Add the main forcast file
-        dir, file_to_zip = os.path.split(self.shapefile_builder_certain.filename)
-        zipf.write(self.shapefile_builder_certain.filename,
-                   arcname=file_to_zip)
+        builders = [self.shapefile_builder_certain]
         if self.include_certain_boundary:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_certain_boundary.filename)
-            zipf.write(self.shapefile_builder_certain_boundary.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_certain_boundary)
         if uncertain:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain.filename)
-            zipf.write(self.shapefile_builder_uncertain.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_uncertain)
             if self.include_uncertain_boundary:
-                dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain_boundary.filename)
-                zipf.write(self.shapefile_builder_uncertain_boundary.filename,
-                           arcname=file_to_zip)
+                builders.append(self.shapefile_builder_uncertain_boundary)
+        for builder in builders:
+            fn = pathlib.Path(builder.filename)
+            # an unzipped shapefile is several files: .shp, .shx, .dbf, ...
+            for f in (fn,) if self.zip_output else sorted(fn.parent.glob(fn.with_suffix('.*').name)):
+                zipf.write(f, arcname=f.name)
         zipf.close()
         return zipf_filename
 
-- 
2.43.0


From df0f5c0e3fee5520e1e38cdeb0144fc36b9f7642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 43/87] fix: surface concentration survives a kernel that
 cannot be estimated

With one element carrying all the mass scipy raises ValueError, which stopped
the run.
---
 py_gnome/gnome/utilities/surface_concentration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/surface_concentration.py b/py_gnome/gnome/utilities/surface_concentration.py
index 6441993..742a6e8 100644
--- a/py_gnome/gnome/utilities/surface_concentration.py
+++ b/py_gnome/gnome/utilities/surface_concentration.py
@@ -89,7 +89,7 @@ def surface_conc_kde(sc):
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * mass_for_kernel.sum()
                     else:
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * len(mass_for_kernel)
-                except np.linalg.LinAlgError:
+                except (np.linalg.LinAlgError, ValueError):
                     warnings.warn('LinAlg error occurred in surface concentration calculations. '
                                   'This is usually do to all (or many) elements being at the same location')
             t = t + bin_length
-- 
2.43.0


From de08f5f21b5f25124cd0f0e6d387d4a8d3b1a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 44/87] fix: TZOffset keeps the minutes of its offset

Truncation lost a minute for offsets such as 20 minutes, which are not exact
in hours.
---
 py_gnome/gnome/utilities/time_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index 4e48b37..c7ceb6b 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -75,7 +75,7 @@ class TZOffset:
         if self.offset is None:
             return timedelta(0)
         else:
-            return timedelta(minutes=int(self.offset * 60))
+            return timedelta(minutes=round(self.offset * 60))
 
     def as_iso_string(self):
         """
@@ -91,8 +91,7 @@ class TZOffset:
             return ""
         else:
             sign = "-" if self.offset <0 else "+"
-            hours = int(abs(self.offset))
-            minutes = int((abs(self.offset) - hours) * 60)
+            hours, minutes = divmod(round(abs(self.offset) * 60), 60)
             return f"{sign}{hours:0>2}:{minutes:0>2}"
 
 
-- 
2.43.0


From 8780d6b472e80fa8a9e7c9635f2905c9a05bc271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 45/87] fix: round_time leaves the array it is given alone

---
 py_gnome/gnome/utilities/time_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index c7ceb6b..bf59e60 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -282,7 +282,7 @@ def round_time(dt=None, roundTo=60):  # IGNORE:W0621
     if dt is None:
         dt = datetime.now()
 
-    dt = np.asarray(dt, dtype='datetime64[s]').reshape(-1)
+    dt = np.array(dt, dtype='datetime64[s]').reshape(-1)
 
     for li in range(len(dt)):
         date = dt[li].astype(object)
-- 
2.43.0


From b65a822d2ee196d57eb96246a76354fe2904b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 46/87] fix: PolygonSets that divide the same points
 differently are not equal

---
 py_gnome/gnome/utilities/geometry/polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 3dbd25d..5f45da5 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -369,6 +369,7 @@ class PolygonSet(object):
             return False
         else:
             return (np.array_equal(self._PointsArray, other._PointsArray) and
+                    np.array_equal(self._IndexArray, other._IndexArray) and
                     self._MetaDataList == other._MetaDataList)
 
     def __ne__(self, other):
-- 
2.43.0


From f5fb0f8109818686bd062cfb96d4e883845386dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 47/87] fix: PolygonSet.SetPointsData sets the data

It raised AttributeError without metadata and otherwise left the metadata of
the previous polygons in place.
---
 py_gnome/gnome/utilities/geometry/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 5f45da5..d344399 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -290,9 +290,9 @@ class PolygonSet(object):
         self._PointsArray = np.array(PointData[0], self.dtype)
         self._IndexArray = np.array(PointData[1], dtype=np.int32)
         if MetaData is not None:
-            self._DataArray = MetaData
+            self._MetaDataList = list(MetaData)
         else:
-            self._DataArray = [None] * len(self.PointsArray)
+            self._MetaDataList = [None] * len(self)
 
     def Copy(self):
         """
-- 
2.43.0


From 006bac71ff84f82ff45942d7647c7052764d9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 48/87] fix: a PolygonSet made from data can be appended to and
 compared

Its metadata was an array, which has no append and no plain equality.
---
 py_gnome/gnome/utilities/geometry/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index d344399..84a16b6 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -203,7 +203,7 @@ class PolygonSet(object):
         else:
             self._PointsArray = np.array(data[0])
             self._IndexArray = np.array(data[1])
-            self._MetaDataList = np.array(data[2])
+            self._MetaDataList = list(data[2])
 
     def append(self, polygon, metadata=None):
 
-- 
2.43.0


From cb69a7ce11522c67655695ce8b4306ae11bf0348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 49/87] fix: PolygonSet.append accepts an empty polygon

---
 py_gnome/gnome/utilities/geometry/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 84a16b6..8b826b5 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -229,7 +229,7 @@ class PolygonSet(object):
         added_length = polygon.shape[0]
         self._PointsArray.resize((old_length + added_length, 2),
                                  refcheck=False)
-        self._PointsArray[-added_length:, :] = polygon
+        self._PointsArray[old_length:, :] = polygon
 
         self._IndexArray.resize((self._IndexArray.shape[0] + 1),
                                 refcheck=False)
-- 
2.43.0


From 0d1629a5c8aa1ad0bc066cfaded4e06f0b1a9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:22 +0000
Subject: [PATCH 50/87] fix: PinP.points_in_poly leaves the shape of its
 argument alone

---
 py_gnome/gnome/utilities/geometry/PinP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/geometry/PinP.py b/py_gnome/gnome/utilities/geometry/PinP.py
index bd2f33e..a9f2b49 100644
--- a/py_gnome/gnome/utilities/geometry/PinP.py
+++ b/py_gnome/gnome/utilities/geometry/PinP.py
@@ -21,7 +21,7 @@ def points_in_poly(pgon, points):
     """
     points = np.asarray(points, dtype=np.float64)
     scalar = (len(points.shape) == 1)
-    points.shape = (-1, 3)
+    points = points.reshape((-1, 3))
 
     result = np.zeros((points.shape[0],), dtype=bool)
 
-- 
2.43.0


From c71b5ab905851e2320ab393e0e580bee6c9810b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:08 +0000
Subject: [PATCH 51/87] fix: PolygonSet.SetPointsData without metadata gives
 what append gives

None was neither equal to nor shown as the empty metadata of polygons.
---
 py_gnome/gnome/utilities/geometry/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 8b826b5..ac9e0af 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -292,7 +292,7 @@ class PolygonSet(object):
         if MetaData is not None:
             self._MetaDataList = list(MetaData)
         else:
-            self._MetaDataList = [None] * len(self)
+            self._MetaDataList = [{} for _ in range(len(self))]
 
     def Copy(self):
         """
-- 
2.43.0


From 347b0a749367b176fc83316fa45357d3a3fd311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 52/87] fix: GeoProjection.to_lonlat leaves the coordinates it
 is given alone

---
 py_gnome/gnome/utilities/projections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 88fcf4b..754bb86 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -330,8 +330,8 @@ class GeoProjection(GnomeId):
             # add 0.5 to shift to center of pixel
             coords += 0.5
 
-        # shift to pixel center coords
-        coords -= self.offset
+        # shift to pixel center coords (a copy: the input is not to be changed)
+        coords = coords - self.offset
 
         # scale to lat-lon
         coords /= self.scale
-- 
2.43.0


From 8a4681fb1054875f832dc216c5849e76f862933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 53/87] fix: RectangularGridProjection leaves the coordinates
 it is given alone

---
 py_gnome/gnome/utilities/projections.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 754bb86..7eaec37 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -626,7 +626,8 @@ class RectangularGridProjection(NoProjection):
         """
         coords = to_2d_coords(coords)
         # All computation in floats -- convert to int if asked for
-        coords = np.asarray(coords, dtype=np.float64)
+        # (a copy: the input is not to be changed)
+        coords = np.array(coords, dtype=np.float64)
         pixel_coords = np.zeros_like(coords, dtype=np.float64)
 
         np.putmask(coords,
@@ -702,9 +703,8 @@ class RectangularGridProjection(NoProjection):
 
         # out of bounds gets clipped to boundary
 
-        np.clip(coords,
-                (0, 0), (self.max_lon_index, self.max_lat_index),
-                out=coords)
+        coords = np.clip(coords,
+                         (0, 0), (self.max_lon_index, self.max_lat_index))
 
         # interpolate to lon-lat_coords
         lon = self._pixel_to_lon_interp(coords[:, 0])
-- 
2.43.0


From 5fbe64e66c68e87b225e60b291b145aac0ed1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 54/87] fix: the image box of a projection is what the image
 shows, not half a pixel off

---
 py_gnome/gnome/utilities/projections.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 7eaec37..bd28a51 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -225,8 +225,9 @@ class GeoProjection(GnomeId):
 
         # doing this at the end, in case there is a problem with the input.
 
-        self.image_box = (self.to_lonlat((0, image_size[1])),
-                          self.to_lonlat((image_size[0], 0)))
+        # floats, as integers would mean the centers of the pixels
+        self.image_box = (self.to_lonlat((0.0, float(image_size[1]))),
+                          self.to_lonlat((float(image_size[0]), 0.0)))
         self.image_size = image_size
 
     def to_pixel(self, coords, asint=False):
@@ -522,8 +523,9 @@ class FlatEarthProjection(GeoProjection):
 
         # doing this at the end, in case there is a problem with the input.
 
-        self.image_box = (self.to_lonlat((0, image_size[1])),
-                          self.to_lonlat((image_size[0], 0)))
+        # floats, as integers would mean the centers of the pixels
+        self.image_box = (self.to_lonlat((0.0, float(image_size[1]))),
+                          self.to_lonlat((float(image_size[0]), 0.0)))
         self.image_size = image_size
 
 
-- 
2.43.0


From ab5ff78db0088beae0eb26ce9f9abc30cc250ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:14 +0000
Subject: [PATCH 55/87] fix: RegularGridProjection.set_scale sets the image box
 too

---
 py_gnome/gnome/utilities/projections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index bd28a51..54ebfdf 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -755,4 +755,5 @@ class RegularGridProjection(GeoProjection):
         self.scale = (image_size[0] / w, - image_size[1] / h)
 
         # doing this at the end, in case there is a problem with the input.
+        self.image_box = bounding_box.copy()
         self.image_size = image_size
-- 
2.43.0


From 2271f7b292a51784a221a11a3e2550d62a63ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 56/87] fix: Wind converts the units of both components in 'uv'
 coordinates

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ae10b47..ec53b00 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -441,7 +441,7 @@ class Wind(Timeseries, Environment):
         if from_unit != to_unit:
             data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
 
-            if coord_sys == ts_format.uv:
+            if tsformat(coord_sys) == ts_format.uv:
                 data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
 
         return data
-- 
2.43.0


From d2a6a6c000c3f400ff2fd349ab575c1f10353d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 57/87] fix: setting the timeseries of a Wind leaves the
 caller's array alone, and the Wind if it is refused

---
 py_gnome/gnome/environment/wind.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ec53b00..ecf1058 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -371,14 +371,15 @@ class Wind(Timeseries, Environment):
         if self._check_timeseries(value):
             units = self.units
 
-            wind_data = self._xform_input_timeseries(value)
-            self._timeseries = wind_data.copy()
+            # a copy, as the data that was passed in should not be changed
+            wind_data = self._xform_input_timeseries(value).copy()
+            user_data = wind_data.copy()
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
-            datetime_value_2d = self._xform_input_timeseries(wind_data)
             timeval = to_time_value_pair(wind_data, coord_sys)
             self.ossm.timeseries = timeval
+            self._timeseries = user_data
             if not hasattr(self, '_time') or self._time is None:
                 self._time = Time()
             self.time.data = self._timeseries['time'].astype(datetime.datetime)
-- 
2.43.0


From 567b1347de3ea3ff6518ed732cadb6a85f4befab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 58/87] fix: Wind.timeseries is in r-theta for data given in uv
 too

---
 py_gnome/gnome/environment/wind.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ecf1058..6518990 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -30,6 +30,7 @@ from gnome.persist import (SchemaNode, drop, OneOf, Float, String, Range, Boolea
                            DefaultTupleSchema, LocalDateTime, DatetimeValue2dArraySchema,
                            FilenameSchema, validators, base_schema)
 from gnome.utilities.convert import (to_time_value_pair, tsformat, to_datetime_value_2d)
+from gnome.utilities.transforms import uv_to_r_theta_wind
 from gnome.persist.validators import convertible_to_seconds
 
 from .environment import Environment
@@ -379,6 +380,9 @@ class Wind(Timeseries, Environment):
 
             timeval = to_time_value_pair(wind_data, coord_sys)
             self.ossm.timeseries = timeval
+            if tsformat(coord_sys) == ts_format.uv:
+                # the timeseries attribute is always in r-theta
+                user_data['value'] = uv_to_r_theta_wind(user_data['value'])
             self._timeseries = user_data
             if not hasattr(self, '_time') or self._time is None:
                 self._time = Time()
-- 
2.43.0


From 8b6291470f8075d00abfd84bb6d5b532a10fa394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 59/87] fix: Wind.set_wind_data keeps the timeseries in the
 units it was given

---
 py_gnome/gnome/environment/wind.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 6518990..42c7ade 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -579,15 +579,8 @@ class Wind(Timeseries, Environment):
                          basic_types.format.* (see cy_basic_types.pyx)
         """
         if self._check_timeseries(wind_data):
-            self._check_units(units)
             self.units = units
-
-            wind_data = self._xform_input_timeseries(wind_data)
-            wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
-                                                     'meter per second')
-
-            super(Wind, self).set_timeseries(wind_data, coord_sys)
-            self._timeseries = wind_data
+            self.new_set_timeseries(wind_data, coord_sys)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From 7cf3e62c364d256f8a6eb199f9fface4007b84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 60/87] fix: changing the units of a Wind changes its
 timeseries to them, not its speed once saved

---
 py_gnome/gnome/environment/wind.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 42c7ade..287280b 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -436,6 +436,11 @@ class Wind(Timeseries, Environment):
         _check_units if units are incorrect for their type of data
         """
         self._check_units(value)
+        if getattr(self, '_user_units', value) != value:
+            # the timeseries attribute is in these units
+            new_ts = self._timeseries.copy()
+            new_ts['value'] = self._convert_units(new_ts['value'], 'r-theta', self._user_units, value)
+            self._timeseries = new_ts
         self._user_units = value
 
     def _convert_units(self, data, coord_sys, from_unit, to_unit):
-- 
2.43.0


From 9bdb50b1764b2d650cbfd12b2d2e0a2e48025d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:04 +0000
Subject: [PATCH 61/87] fix: Wind.at returns the wind in the units asked for

---
 py_gnome/gnome/environment/wind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 287280b..a11496c 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -629,6 +629,8 @@ class Wind(Timeseries, Environment):
                        wind - value is the same for all points.
         :param time: Datetime of the time to be queried
 
+        :param units=None: units of the speed that is returned: m/s if None
+
         :param coord_sys: String describing the coordinate system.
         '''
         if points is None:
@@ -667,7 +669,7 @@ class Wind(Timeseries, Environment):
             if self.extrapolation_is_allowed is None:  # shouldn't happen
                 self.extrapolation_is_allowed = False
         try:
-            data = self.get_wind_data(time, 'm/s', cs)[0]['value']
+            data = self.get_wind_data(time, units or self._gnome_unit, cs)[0]['value']
         except IndexError:
             # CyTimeseries is raising an IndexError
             raise ValueError(f'time specified ({time}) is not within the bounds of the time: '
-- 
2.43.0


From ea0b80363a314cdaa01e9c95f9c67ef4632056e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:04 +0000
Subject: [PATCH 62/87] fix: a Wind from a file has its longitude and latitude
 the right way round

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index a11496c..4591c45 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -216,8 +216,8 @@ class Wind(Timeseries, Environment):
             self.new_set_timeseries(wind_vel, coord_sys=coord_sys)
 
             if coords != (None, None):
-                self.longitude = coords[1]
-                self.latitude = coords[0]
+                self.longitude = coords[0]
+                self.latitude = coords[1]
 
             self.name = kwargs.pop('name', name)
             self.units = units
-- 
2.43.0


From 207411d3063d4c37156997a3110d59787f208186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:04 +0000
Subject: [PATCH 63/87] fix: wind files without a station name can be read

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 4591c45..bbe2706 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -875,7 +875,7 @@ def _read_ossm_header(infile):
     # Line 1: name
     name = infile.readline().strip()
     line_no += 1
-    name = str(filename) if not name else name
+    name = str(getattr(infile, 'name', '')) if not name else name
 
     # line 2: location coords:
     line = infile.readline().strip()
-- 
2.43.0


From e0fb498624303d81efcac3cd4bf7b3d101297489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:04 +0000
Subject: [PATCH 64/87] fix: a timeseries given as a list has to be in
 ascending order too

---
 py_gnome/gnome/utilities/timeseries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/timeseries.py b/py_gnome/gnome/utilities/timeseries.py
index 4eec7b2..195bf18 100644
--- a/py_gnome/gnome/utilities/timeseries.py
+++ b/py_gnome/gnome/utilities/timeseries.py
@@ -130,7 +130,10 @@ class Timeseries(GnomeId):
                         raise TimeseriesError('value: {} '
                                               'is not a timeseries value'
                                               .format(i))
-                return True
+                times = [np.datetime64(i[0], 's') for i in timeseries]
+                timeseries = np.zeros((len(times),),
+                                      dtype=basic_types.datetime_value_2d)
+                timeseries['time'] = times
 
         if not self._timeseries_is_ascending(timeseries):
             self.logger.error('{0} - timeseries are not in ascending order. '
-- 
2.43.0


From 9c16c8a169ce07ba1c4299e750253a66bc422b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:04 +0000
Subject: [PATCH 65/87] fix: TimeseriesVector.at passes extrapolate on to its
 variables

---
 py_gnome/gnome/environment/timeseries_objects_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/timeseries_objects_base.py b/py_gnome/gnome/environment/timeseries_objects_base.py
index 6f9a112..5158650 100644
--- a/py_gnome/gnome/environment/timeseries_objects_base.py
+++ b/py_gnome/gnome/environment/timeseries_objects_base.py
@@ -388,7 +388,7 @@ class TimeseriesVector(GnomeId):
             :rtype: double
         '''
         units = units if units else self._gnome_unit #no need to convert here, its handled in the subcomponents
-        val = np.column_stack([var.at(points, time,  units=units, **kwargs) for var in self.variables])
+        val = np.column_stack([var.at(points, time, units=units, extrapolate=extrapolate, **kwargs) for var in self.variables])
 
         # No need to unit convert since that should be handled by the individual variable objects
         if points is None:
-- 
2.43.0


From 4f655f499e71ced6ef4ba5939c3abf6ab8ef8da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:25 +0000
Subject: [PATCH 66/87] fix: SteadyUniformCurrent.at returns the current in the
 units asked for

---
 py_gnome/gnome/environment/environment_objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/environment/environment_objects.py b/py_gnome/gnome/environment/environment_objects.py
index c904e1d..cf29f94 100644
--- a/py_gnome/gnome/environment/environment_objects.py
+++ b/py_gnome/gnome/environment/environment_objects.py
@@ -137,6 +137,8 @@ class SteadyUniformCurrent(Environment):
         vel = np.zeros((len(points), dimensionality), dtype=np.float64)
         vel[:, 0] = self.u
         vel[:, 1] = self.v
+        if units is not None and units != self.units:
+            vel[:, :2] = uc.convert(self.units, units, vel[:, :2])
         return vel
 
 
-- 
2.43.0


From 219797409a9f6aec84c9f8576c6f99e85c5fa236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:25 +0000
Subject: [PATCH 67/87] fix: a Wind read from a file and changed since is not
 read from the file again when deserialized

---
 py_gnome/gnome/environment/wind.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index bbe2706..9cae9c0 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -298,6 +298,17 @@ class Wind(Timeseries, Environment):
         return wind
 
 
+    @classmethod
+    def new_from_dict(cls, dict_):
+        filename = None
+        if dict_.get('timeseries') is not None:
+            # the file would not have the changes made since it was read
+            filename = dict_.pop('filename', None)
+        obj = super(Wind, cls).new_from_dict(dict_)
+        if filename is not None:
+            obj._filename = filename
+        return obj
+
     def update_from_dict(self, dict_, refs=None):
         if 'units' in dict_:
             # enforce updating of units before timeseries
-- 
2.43.0


From 01c434e52be8d5ba23d206876c2aa11a14b877e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:40 +0000
Subject: [PATCH 68/87] fix: Wind.set_wind_data leaves the units alone when it
 refuses the data

---
 py_gnome/gnome/environment/wind.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 9cae9c0..2c6689c 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -379,9 +379,9 @@ class Wind(Timeseries, Environment):
         coord_sys = 'r-theta'
         self.new_set_timeseries(value, coord_sys)
 
-    def new_set_timeseries(self, value, coord_sys):
+    def new_set_timeseries(self, value, coord_sys, units=None):
         if self._check_timeseries(value):
-            units = self.units
+            units = self.units if units is None else units
 
             # a copy, as the data that was passed in should not be changed
             wind_data = self._xform_input_timeseries(value).copy()
@@ -395,6 +395,7 @@ class Wind(Timeseries, Environment):
                 # the timeseries attribute is always in r-theta
                 user_data['value'] = uv_to_r_theta_wind(user_data['value'])
             self._timeseries = user_data
+            self._user_units = units
             if not hasattr(self, '_time') or self._time is None:
                 self._time = Time()
             self.time.data = self._timeseries['time'].astype(datetime.datetime)
@@ -595,8 +596,8 @@ class Wind(Timeseries, Environment):
                          basic_types.format.* (see cy_basic_types.pyx)
         """
         if self._check_timeseries(wind_data):
-            self.units = units
-            self.new_set_timeseries(wind_data, coord_sys)
+            self._check_units(units)
+            self.new_set_timeseries(wind_data, coord_sys, units)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From eb71f1ba42c550c67e1d8a52da2519634f3b9f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:40 +0000
Subject: [PATCH 69/87] fix: a Wind given in uv equals itself after being saved
 and loaded

---
 py_gnome/gnome/utilities/timeseries.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/timeseries.py b/py_gnome/gnome/utilities/timeseries.py
index 195bf18..02cf9db 100644
--- a/py_gnome/gnome/utilities/timeseries.py
+++ b/py_gnome/gnome/utilities/timeseries.py
@@ -154,7 +154,14 @@ class Timeseries(GnomeId):
         """
         """
         t1 = super(Timeseries, self).__eq__(o)
-        return t1 and hasattr(self, 'ossm') and np.all(self.ossm.timeseries == o.ossm.timeseries)
+        if not t1 or not hasattr(self, 'ossm'):
+            return False
+        ts, o_ts = self.ossm.timeseries, o.ossm.timeseries
+        # the components are only as exact as their conversion from r-theta
+        return (len(ts) == len(o_ts) and
+                np.array_equal(ts['time'], o_ts['time']) and
+                np.allclose(ts['value']['u'], o_ts['value']['u'], rtol=1e-10, atol=1e-10) and
+                np.allclose(ts['value']['v'], o_ts['value']['v'], rtol=1e-10, atol=1e-10))
 
     def get_start_time(self):
         """
-- 
2.43.0


From 860d74246b9631b58362a9e24e3d4161ffefd446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:21 +0000
Subject: [PATCH 70/87] fix: RiseVelocityMover and RandomMover3D accept the
 negative time steps of backward runs

---
 py_gnome/gnome/cy_gnome/movers.pxd    | 4 ++--
 py_gnome/lib_gnome/RiseVelocity_c.cpp | 2 +-
 py_gnome/lib_gnome/RiseVelocity_c.h   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/movers.pxd b/py_gnome/gnome/cy_gnome/movers.pxd
index 38a3d1c..8fa4bbd 100644
--- a/py_gnome/gnome/cy_gnome/movers.pxd
+++ b/py_gnome/gnome/cy_gnome/movers.pxd
@@ -44,7 +44,7 @@ cdef extern from "RandomVertical_c.h":
         double fHorizontalDiffusionCoefficientBelowML
         double fMixedLayerDepth
         bool bSurfaceIsAllowed
-        OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+        OSErr get_move(int n, unsigned long model_time, long step_len,
                        WorldPoint3D* ref, WorldPoint3D* delta,
                        short* LE_status, LEType spillType, long spillID)
 
@@ -58,7 +58,7 @@ cdef extern from "RiseVelocity_c.h":
         RiseVelocity_c() except +
         # double water_density
         # double water_viscosity
-        OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+        OSErr get_move(int n, unsigned long model_time, long step_len,
                        WorldPoint3D* ref, WorldPoint3D* delta,
                        double* rise_velocity,
                        short* LE_status, LEType spillType, long spillID)
diff --git a/py_gnome/lib_gnome/RiseVelocity_c.cpp b/py_gnome/lib_gnome/RiseVelocity_c.cpp
index ce59bc0..471c532 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.cpp
+++ b/py_gnome/lib_gnome/RiseVelocity_c.cpp
@@ -151,7 +151,7 @@ double GetDropletSize(double riseVelocity, double water_viscosity, double water_
 	return y1;
 }
 
-OSErr RiseVelocity_c::get_move(int n, unsigned long model_time, unsigned long step_len,
+OSErr RiseVelocity_c::get_move(int n, unsigned long model_time, long step_len,
 							   WorldPoint3D *ref, WorldPoint3D *delta,
 							   double *rise_velocity,
 							   short *LE_status, LEType spillType, long spill_ID)
diff --git a/py_gnome/lib_gnome/RiseVelocity_c.h b/py_gnome/lib_gnome/RiseVelocity_c.h
index 3352092..f1a7e3c 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.h
+++ b/py_gnome/lib_gnome/RiseVelocity_c.h
@@ -39,7 +39,7 @@ public:
 	virtual WorldPoint3D GetMove(const Seconds& model_time, Seconds timeStep,
 								 long setIndex, long leIndex, LERec *theLE, LETYPE leType);
 
-	OSErr get_move(int n, unsigned long model_time, unsigned long step_len,
+	OSErr get_move(int n, unsigned long model_time, long step_len,
 				   WorldPoint3D *ref, WorldPoint3D *delta,
 				  // double *rise_velocity, double *density, double *droplet_size,
 				   double *rise_velocity,
-- 
2.43.0


From db4ddfc78f7c4ab005a7a05687fcfda0744dfe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:21 +0000
Subject: [PATCH 71/87] fix: RandomMover3D moves elements in backward runs too,
 not to NaN

---
 py_gnome/lib_gnome/RandomVertical_c.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_gnome/lib_gnome/RandomVertical_c.cpp b/py_gnome/lib_gnome/RandomVertical_c.cpp
index 6abcca6..a668659 100644
--- a/py_gnome/lib_gnome/RandomVertical_c.cpp
+++ b/py_gnome/lib_gnome/RandomVertical_c.cpp
@@ -131,9 +131,9 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		rand1 = GetRandomFloat(-1.0, 1.0);
 		rand2 = GetRandomFloat(-1.0, 1.0);
 		if ((*theLE).z>mixedLayerDepth)
-			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficientBelowML/10000.)*timeStep)/METERSPERDEGREELAT;
+			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficientBelowML/10000.)*fabs(timeStep))/METERSPERDEGREELAT;
 		else
-			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficient/10000.)*timeStep)/METERSPERDEGREELAT;
+			horizontalDiffusionCoefficient = sqrt(6.*(fHorizontalDiffusionCoefficient/10000.)*fabs(timeStep))/METERSPERDEGREELAT;
 		dLong = (rand1 * horizontalDiffusionCoefficient )/ LongToLatRatio3 (refPoint.pLat);
 		dLat  = rand2 * horizontalDiffusionCoefficient;		
 		
@@ -151,7 +151,7 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		if ((*theLE).z<=mixedLayerDepth)
 		{
 			if (fVerticalDiffusionCoefficient==0) return deltaPoint;	
-			verticalDiffusionCoefficient = sqrt(6.*(fVerticalDiffusionCoefficient/10000.)*timeStep);
+			verticalDiffusionCoefficient = sqrt(6.*(fVerticalDiffusionCoefficient/10000.)*fabs(timeStep));
 			rand = GetRandomFloat(-1.0, 1.0);
 			deltaPoint.z = rand*verticalDiffusionCoefficient;
 			//z = deltaPoint.z;	// will add this on to the next move
@@ -176,7 +176,7 @@ WorldPoint3D RandomVertical_c::GetMove (const Seconds& model_time, Seconds timeS
 		if (mixedLayerDepth==depthAtPoint) /*return deltaPoint*/goto dochecks;	// in this case don't need to do anything more
 		// now apply below mixed layer depth diffusion to all particles above and below
 		if (fVerticalBottomDiffusionCoefficient==0/* && z==0*/) /*return deltaPoint*/goto dochecks;	// don't return until do checks
-		verticalDiffusionCoefficient = sqrt(6.*(fVerticalBottomDiffusionCoefficient/10000.)*timeStep);
+		verticalDiffusionCoefficient = sqrt(6.*(fVerticalBottomDiffusionCoefficient/10000.)*fabs(timeStep));
 		rand = GetRandomFloat(-1.0, 1.0);
 		deltaPoint.z = rand*verticalDiffusionCoefficient;
 		
-- 
2.43.0


From 6b7e7db7d9940056a05ecf672186d0139eee03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:21 +0000
Subject: [PATCH 72/87] fix: removing an element before the
 uncertain_time_delay does not stop the run

---
 py_gnome/gnome/movers/py_current_movers.py | 3 ++-
 py_gnome/gnome/movers/py_wind_movers.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index bd07208..58a56fb 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -392,7 +392,8 @@ class CurrentMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # there are no uncertainties before uncertain_time_delay
+            if len(to_be_removed) > 0 and len(self._uncertainty_list) > 0:
                 new_uncertainty = np.copy(self._uncertainty_list)
                 #self._uncertainty_list = np.delete(self._uncertainty_list, to_be_removed, axis=0)
                 self._uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index a558857..55224b0 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -209,7 +209,8 @@ class WindMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # there are no uncertainties before uncertain_time_delay
+            if len(to_be_removed) > 0 and len(self.uncertainty_list) > 0:
                 new_uncertainty = np.copy(self.uncertainty_list)
                 self.uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
 
-- 
2.43.0


From f999702152f7a7683c82ff877f900d47d6b64fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:37 +0000
Subject: [PATCH 73/87] fix: WindMover does not move elements below the surface

---
 py_gnome/gnome/movers/py_wind_movers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index 55224b0..ec8d727 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -445,6 +445,7 @@ class WindMover(movers.PyMover):
             deltas = FlatEarthProjection.meters_to_lonlat(deltas, positions)
 
             deltas[status] = (0, 0, 0)
+            deltas[positions[:, 2] > 0] = (0, 0, 0)  # no wind underwater
         else:
             deltas = np.zeros_like(positions)
 
-- 
2.43.0


From c6623e5afcbe238d3fb32ec4046ec7b7f7ca8f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:37 +0000
Subject: [PATCH 74/87] fix: WindMover adds the diffusion of light winds to the
 wind, as PointWindMover does

---
 py_gnome/gnome/movers/py_wind_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index ec8d727..db74a00 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -370,6 +370,7 @@ class WindMover(movers.PyMover):
             unrec=self.uncertainty_list
             u = new_deltas[:,0] / time_step
             v = new_deltas[:,1] / time_step
+            u0, v0 = u.copy(), v.copy()
             norm = np.sqrt(u*u + v*v)
 
             s = norm * norm - self.sigma2
@@ -402,8 +403,8 @@ class WindMover(movers.PyMover):
                 if norm[i] < 1:
                     rand1 = np.random.uniform(-1., 1.)
                     rand2 = np.random.uniform(-1., 1.)
-                    deltas[i,0] = u[i] * self.uncertain_diffusion * rand1
-                    deltas[i,1] = v[i] * self.uncertain_diffusion * rand2
+                    deltas[i,0] = (u0[i] + self.uncertain_diffusion * rand1) * time_step
+                    deltas[i,1] = (v0[i] + self.uncertain_diffusion * rand2) * time_step
 
         else:
             raise ValueError("something wrong with uncertainty")
-- 
2.43.0


From 3622293f51b53ce7f89d5b2d36e49a2f45e4fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:03 +0000
Subject: [PATCH 75/87] fix: elements removed while a mover is not active take
 their uncertainty with them

---
 py_gnome/gnome/movers/py_current_movers.py | 14 ++++++++------
 py_gnome/gnome/movers/py_wind_movers.py    | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 58a56fb..ecf465d 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -383,17 +383,19 @@ class CurrentMover(movers.PyMover):
         :param sc: an instance of gnome.spill_container.SpillContainer class
 
         """
-        if not self.active or not self.on:
-            return
-
-        self.is_first_step = False
+        if self.active and self.on:
+            self.is_first_step = False
 
+        # elements leave while the mover is not active, too
         if sc.uncertain:
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            # there are no uncertainties before uncertain_time_delay
-            if len(to_be_removed) > 0 and len(self._uncertainty_list) > 0:
+            # not all have one: none before uncertain_time_delay, nor those
+            # released while the mover is not active
+            to_be_removed = to_be_removed[to_be_removed < len(self._uncertainty_list)]
+
+            if len(to_be_removed) > 0:
                 new_uncertainty = np.copy(self._uncertainty_list)
                 #self._uncertainty_list = np.delete(self._uncertainty_list, to_be_removed, axis=0)
                 self._uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index db74a00..0782539 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -200,17 +200,19 @@ class WindMover(movers.PyMover):
         :param sc: an instance of gnome.spill_container.SpillContainer class
 
         """
-        if not self.active or not self.on:
-            return
-
-        self.is_first_step = False
+        if self.active and self.on:
+            self.is_first_step = False
 
+        # elements leave while the mover is not active, too
         if sc.uncertain:
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            # there are no uncertainties before uncertain_time_delay
-            if len(to_be_removed) > 0 and len(self.uncertainty_list) > 0:
+            # not all have one: none before uncertain_time_delay, nor those
+            # released while the mover is not active
+            to_be_removed = to_be_removed[to_be_removed < len(self.uncertainty_list)]
+
+            if len(to_be_removed) > 0:
                 new_uncertainty = np.copy(self.uncertainty_list)
                 self.uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
 
-- 
2.43.0


From 7c2e8e71183148e058be9eb12347216e059f51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 76/87] fix: newly released oil gets its density from the
 model's water, as its viscosity does

---
 py_gnome/gnome/spills/gnome_oil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/gnome_oil.py b/py_gnome/gnome/spills/gnome_oil.py
index 9b9fbd5..9a05e61 100644
--- a/py_gnome/gnome/spills/gnome_oil.py
+++ b/py_gnome/gnome/spills/gnome_oil.py
@@ -359,7 +359,8 @@ class GnomeOil(Substance):
         # initialize mass_components
         arrs['mass_components'][sl] = (np.asarray(self.mass_fraction, dtype=np.float64) * (arrs['mass'][sl].reshape(len(arrs['mass'][sl]), -1)))
 
-        super(GnomeOil, self).initialize_elements(to_rel, arrs)
+        super(GnomeOil, self).initialize_elements(to_rel, arrs,
+                                                  environment=environment)
 
     def _set_pc_values(self, prop, values):
         """
-- 
2.43.0


From e1f65f7301620fe7dbc998bdb7b1f2806b6936c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 77/87] fix: WeibullDistribution refuses equal bounds, which it
 could never satisfy

---
 py_gnome/gnome/utilities/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/distributions.py b/py_gnome/gnome/utilities/distributions.py
index 7b4192a..f50b148 100644
--- a/py_gnome/gnome/utilities/distributions.py
+++ b/py_gnome/gnome/utilities/distributions.py
@@ -231,7 +231,7 @@ class WeibullDistribution(DistributionBase):
                 raise ValueError('Weibull distribution requires '
                                  'maximum > 0.1% of total distribution')
 
-            if self.min_ is not None and self.max_ < self.min_:
+            if self.min_ is not None and self.max_ <= self.min_:
                 raise ValueError('Weibull distribution requires '
                                  'maximum > minimum')
 
-- 
2.43.0


From 6c38bee344e0c259ccc53272eeabda089ed4ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 78/87] fix: drops heavier than the water sink instead of
 getting a rise velocity that isn't a number

---
 py_gnome/lib_gnome/RiseVelocity_c.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/lib_gnome/RiseVelocity_c.cpp b/py_gnome/lib_gnome/RiseVelocity_c.cpp
index 471c532..7d83c91 100644
--- a/py_gnome/lib_gnome/RiseVelocity_c.cpp
+++ b/py_gnome/lib_gnome/RiseVelocity_c.cpp
@@ -73,7 +73,8 @@ double GetRiseVelocity(double le_density, double le_droplet_size, double water_v
 {
 	double g = 9.8, riseVelocity=0.;
 	
-	double dfac = g*(water_density-le_density) / water_density;	// buoyancy term
+	double dfac = g*fabs(water_density-le_density) / water_density;	// buoyancy term
+	double sign = (le_density > water_density) ? -1.0 : 1.0;	// drops heavier than the water sink
 	double d1 = .0002, d2 = .01;	// upper limit for Stoke's law cut; lower limit for Form drag
 	//water_viscosity = 1.3e-6;	// water viscosity in mks units (for temp = 10 deg C)
 	double scaled_dropletSize = (le_droplet_size - d1) / (d2 - d1);	// droplet diameter scaled to (d2-d1) interval
@@ -104,7 +105,7 @@ double GetRiseVelocity(double le_density, double le_droplet_size, double water_v
 		riseVelocity = ((c3*scaled_dropletSize + c2)*scaled_dropletSize + c1)*scaled_dropletSize + c0;
 	}
 
-	return riseVelocity;
+	return sign * riseVelocity;
 }
 
 double GetRiseVelocityDerivative(double oil_density, double water_viscosity, double water_density, double droplet_size)
-- 
2.43.0


From bf76425d84c758f91e5d147d40fd7ac6b47a24c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:52 +0000
Subject: [PATCH 79/87] fix: is_savezip_valid rejects absolute paths, which lie
 outside of the save location

---
 py_gnome/gnome/persist/save_load.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/persist/save_load.py b/py_gnome/gnome/persist/save_load.py
index 5787b25..ac781cb 100644
--- a/py_gnome/gnome/persist/save_load.py
+++ b/py_gnome/gnome/persist/save_load.py
@@ -574,12 +574,14 @@ def is_savezip_valid(savezip,
                                     max_compress_ratio))
                 return False
 
-            if '..' in zi.filename:
-                # 5) reject zipfile if it contains .. anywhere in filename.
+            if '..' in zi.filename or os.path.isabs(zi.filename):
+                # 5) reject zipfile if it contains .. anywhere in filename,
+                #    or an absolute path, which lies outside of saveloc too.
                 #    currently, all datafiles stored at same level in saveloc,
                 #    no subdirectories. Even if we start using subdirectories,
                 #    there should never be a need to do '..'
-                log.warning('Found ".." in {0}. Rejecting zipfile'
+                log.warning('Found a path outside of the archive: {0}. '
+                            'Rejecting zipfile'
                             .format(zi.filename))
                 return False
 
-- 
2.43.0


From 8216e4bfd670d8b2ef4a831662bc3ea2f4579c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:52 +0000
Subject: [PATCH 80/87] fix: references to renamed files of an archive are
 updated when the name is escaped in json or the folder's name is a glob
 pattern

---
 py_gnome/gnome/utilities/save_updater.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/utilities/save_updater.py b/py_gnome/gnome/utilities/save_updater.py
index 77f0b62..2cdbcae 100644
--- a/py_gnome/gnome/utilities/save_updater.py
+++ b/py_gnome/gnome/utilities/save_updater.py
@@ -455,17 +455,26 @@ def extract_zipfile(zip_file, to_folder='.'):
         if len(fn_edits) > 0:
             log.info('Save file contained invalid names. '
                      'Editing extracted json to maintain save file integrity.')
-            for jsonfile in glob.glob(os.path.join(to_folder, '*.json')):
+            for jsonfile in os.listdir(to_folder):
+                if not jsonfile.endswith('.json'):
+                    continue
+                jsonfile = os.path.join(to_folder, jsonfile)
                 # if any file name edits were made, references may need
                 # to be updated too otherwise the .json file won't be found
                 contents = None
                 replaced = False
                 with open(jsonfile, 'r', encoding='utf-8') as jf:
                     contents = jf.read()
-                    for k, v in fn_edits.items():
-                        if k in contents:
-                            contents = contents.replace(k, v)
-                            replaced = True
+                    # longest first: a name may end with another one
+                    for k, v in sorted(fn_edits.items(),
+                                       key=lambda kv: -len(kv[0])):
+                        # the names as they are written in json
+                        for ascii_ in (True, False):
+                            old = json.dumps(k, ensure_ascii=ascii_)[1:-1]
+                            new = json.dumps(v, ensure_ascii=ascii_)[1:-1]
+                            if old in contents:
+                                contents = contents.replace(old, new)
+                                replaced = True
                 if replaced:
                     with open(jsonfile, 'w', encoding='utf-8') as jf:
                         jf.write(contents)
-- 
2.43.0


From 09a47f7b033a040a194c8756a27a30289479471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:52 +0000
Subject: [PATCH 81/87] fix: updating a save to version 4 removes every
 reference to weathering data, not every other one

---
 py_gnome/gnome/utilities/save_updater.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/save_updater.py b/py_gnome/gnome/utilities/save_updater.py
index 2cdbcae..7dd0eb6 100644
--- a/py_gnome/gnome/utilities/save_updater.py
+++ b/py_gnome/gnome/utilities/save_updater.py
@@ -358,10 +358,8 @@ def v3tov4(messages, errors):
             with open(fname, 'r', encoding='utf-8') as fn:
                 json_ = json.load(fn)
                 if 'weatherers' in json_:
-                    # this is assuming only one
-                    for item in json_['weatherers']:
-                        if item in files_to_remove:
-                            json_['weatherers'].remove(item)
+                    json_['weatherers'] = [item for item in json_['weatherers']
+                                           if item not in files_to_remove]
                 json.dump(json_, open(fname, 'w', encoding='utf-8'), indent=4)
 
     # remove targeted files
-- 
2.43.0


From 6feb564bb51a709dc7461f860dd924e41fc8ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:52 +0000
Subject: [PATCH 82/87] fix: updating a save to version 2 works when substances
 share their windages

---
 py_gnome/gnome/utilities/save_updater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/save_updater.py b/py_gnome/gnome/utilities/save_updater.py
index 7dd0eb6..25c2520 100644
--- a/py_gnome/gnome/utilities/save_updater.py
+++ b/py_gnome/gnome/utilities/save_updater.py
@@ -254,7 +254,7 @@ def v1tov2(messages, errors):
     with open('version.txt', 'w', encoding='utf-8') as vers_file:
         vers_file.write('2\n')
 
-    for fname in files_to_remove:
+    for fname in set(files_to_remove):
         Path(fname).unlink()
 
     messages.append('**Update from v1 to v2 successful**')
-- 
2.43.0


From ba7d733870ce894cab3ad0649a3f78b5f1ed345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:54 +0000
Subject: [PATCH 83/87] fix: native dates in the last hour of a day in summer
 time are that day's, not the next day's

---
 py_gnome/lib_gnome/StringFunctions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/lib_gnome/StringFunctions.cpp b/py_gnome/lib_gnome/StringFunctions.cpp
index 2d99f5c..23ecf3c 100644
--- a/py_gnome/lib_gnome/StringFunctions.cpp
+++ b/py_gnome/lib_gnome/StringFunctions.cpp
@@ -1482,7 +1482,7 @@ void Secs2DateStrings(Seconds seconds,
 		if(time->tm_hour > 0)
 			time->tm_hour--;
 		else {
-			seconds -= 3600;
+			converted_seconds -= 3600;
 			time = localtime(&converted_seconds);
 			if (time->tm_isdst == 1) {
 				// life is good, both times were daylight savings time
@@ -1527,7 +1527,7 @@ void Secs2DateString(Seconds seconds, CHARPTR s)
 			if(newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 				if (newTime->tm_isdst == 1) {
 					newTime->tm_year = newTime->tm_year % 100; // year 2000 fix , JLM 1/25/99
@@ -1569,7 +1569,7 @@ void Secs2DateString2(Seconds seconds, CHARPTR s)
 			if (newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 
 				if (newTime->tm_isdst == 1) {
@@ -1664,7 +1664,7 @@ void Secs2DateStringNetCDF(Seconds seconds, CHARPTR s)
 			if(newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 				if(newTime->tm_isdst == 1) {
 					// life is good, both times were daylight savings time
@@ -1939,7 +1939,7 @@ void SecondsToDate (Seconds seconds, DateTimeRec *date)
 			if (newTime->tm_hour > 0)
 				newTime->tm_hour--;
 			else {
-				seconds -= 3600;
+				converted_seconds -= 3600;
 				newTime = localtime(&converted_seconds);
 
 				if (newTime->tm_isdst == 1) {
-- 
2.43.0


From 0a80b375577734d604e94dfb862f76c5bf08c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:24 +0000
Subject: [PATCH 84/87] fix: the vapour pressure of an oil follows a change of
 its boiling points

---
 py_gnome/gnome/spills/gnome_oil.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/py_gnome/gnome/spills/gnome_oil.py b/py_gnome/gnome/spills/gnome_oil.py
index 9a05e61..9d33cb6 100644
--- a/py_gnome/gnome/spills/gnome_oil.py
+++ b/py_gnome/gnome/spills/gnome_oil.py
@@ -1,5 +1,3 @@
-from functools import lru_cache
-
 import numpy as np
 import warnings
 
@@ -373,7 +371,6 @@ class GnomeOil(Substance):
                              "are pseudo components".format(prop))
         setattr(self, prop, np.array(values, dtype=np.float64))
 
-    @lru_cache(2)
     def vapor_pressure(self, temp, atmos_pressure=101325.0):
         """
         the vapor pressure on the PCs at a given temperature
-- 
2.43.0


From 89471f9839d0e1fcbd4e209866ccbb6066cafa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:24 +0000
Subject: [PATCH 85/87] fix: the viscosity of an oil follows a change of its
 measurements

---
 py_gnome/gnome/spills/gnome_oil.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/gnome_oil.py b/py_gnome/gnome/spills/gnome_oil.py
index 9d33cb6..900f3b8 100644
--- a/py_gnome/gnome/spills/gnome_oil.py
+++ b/py_gnome/gnome/spills/gnome_oil.py
@@ -676,11 +676,17 @@ class GnomeOil(Substance):
 
         temp_k = np.asarray(temp_k)
 
-        if self._k_v2 is None or self._visc_A is None:
+        if (self._k_v2 is None or self._visc_A is None or
+                self._visc_data != self._current_visc_data()):
             self.determine_visc_constants()
 
         return self._visc_A * np.exp(self._k_v2 / temp_k)
 
+    def _current_visc_data(self):
+        # the data the constants are determined from -- it can be updated
+        return [list(self.kvis), list(self.kvis_ref_temps),
+                list(self.kvis_weathering)]
+
     def determine_visc_constants(self):
         '''
         viscosity as a function of temp is given by:
@@ -704,6 +710,7 @@ class GnomeOil(Substance):
         '''
         self._k_v2 = None  # decay constant for viscosity curve
         self._visc_A = None
+        self._visc_data = self._current_visc_data()
 
         kvis = [k for k, w in zip(self.kvis, self.kvis_weathering) if w == 0.0]
         kvis_ref_temps = [t for t, w in zip(self.kvis_ref_temps,
-- 
2.43.0


From b1a67a51fa6d350a1d9e487ac6eac51d547d40ec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:49:03 +0000
Subject: [PATCH 86/87] fix: the density is recalculated for all elements, also
 when some are beached or under water

recalc_density changed a copy of the surface elements' arrays when not all
elements were on the surface, and then wrote back another, empty view, so
that the change was lost.
---
 py_gnome/gnome/ops/density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/ops/density.py b/py_gnome/gnome/ops/density.py
index 2fb9f68..ffb3116 100644
--- a/py_gnome/gnome/ops/density.py
+++ b/py_gnome/gnome/ops/density.py
@@ -60,7 +60,7 @@ def recalc_density(sc, water=None, aggregate=True):
     water_temp = water_rho = None
 
     if substance.is_weatherable: 
-        for substance, data in sc.itersubstancedata(sc.array_types):  
+        for substance, data in sc.itersubstancedata(sc.array_types, fate_status='all'):  
             if len(data['mass']) == 0:
                 continue    
                 
-- 
2.43.0


From 786f4d9588ddaf4bec22dd9aeea138030fec7c0d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 07:49:03 +0000
Subject: [PATCH 87/87] fix: dispersion (Li2017) of oil as dense as the water
 does not give NaN masses

recalc_density limits the density of an emulsion to that of the water; the
maximum stable droplet diameter was then infinite and the dispersed mass and
the elements' masses became NaN.
---
 py_gnome/gnome/weatherers/natural_dispersion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/natural_dispersion.py b/py_gnome/gnome/weatherers/natural_dispersion.py
index 45ac300..3fbbc6a 100644
--- a/py_gnome/gnome/weatherers/natural_dispersion.py
+++ b/py_gnome/gnome/weatherers/natural_dispersion.py
@@ -209,7 +209,9 @@ class NaturalDispersion(Weatherer):
         sigma_o_w = 3.5e-2 # unit N/m
         H0 = wave_height / 0.707 # significant wave height
 
-        d_oil = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * (rho_w - density))) # maximum stable droplet diameter
+        # emulsified oil can be as dense as the water
+        delta_rho = np.maximum(rho_w - density, 1.0e-6)
+        d_oil = 4.0 * np.sqrt(sigma_o_w / (constants.gravity * delta_rho)) # maximum stable droplet diameter
         dynamic_visc = viscosity * density
 
         # parameter values estimated by Li et al., (2017)
-- 
2.43.0

