From be12b74d9ff35570ac5ebcc6b903ceb6eda7ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 001/125] fix: correct kd-tree rectangle distance bounds away
 from the equator and across the date line

---
 cis/collocation/kdtree.py | 41 ++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index 5336c24..fcaed26 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -311,7 +311,7 @@ class RectangleHaversine(RectangleBase):
         lat0 = point[0]
         # Shift point longitude to be within pi of rectangle mid-longitude.
         range_start = (rect_lon_min + rect_lon_max) / 2.0 - PI
-        lon0 = np.fmod(point[1] - range_start, TWO_PI) + range_start
+        lon0 = np.mod(point[1] - range_start, TWO_PI) + range_start
 
         inside = False
 
@@ -395,29 +395,44 @@ class RectangleHaversine(RectangleBase):
         furthest_point = np.where(self.maxes - x > x - self.mins, self.maxes, self.mins)
         return haversine_distance(x, furthest_point)
 
+    def _lon_separations(self, other):
+        """Find the smallest and largest circular longitude separations between points in the two rectangles.
+        :param other: hyperrectangle
+        :return: tuple of smallest and largest separation, in radians between 0 and pi
+        """
+        mid_separation = abs((self.mins[1] + self.maxes[1]) - (other.mins[1] + other.maxes[1])) / 2.0
+        mid_separation = abs((mid_separation + 180.0) % 360.0 - 180.0)
+        half_widths = ((self.maxes[1] - self.mins[1]) + (other.maxes[1] - other.mins[1])) / 2.0
+        return np.radians([max(0.0, mid_separation - half_widths), min(180.0, mid_separation + half_widths)])
+
     def min_distance_rectangle(self, other):
         """
-        Compute the minimum distance between points in the two hyperrectangles.
+        Compute a lower bound for the distance between points in the two hyperrectangles.
 
         :param other: hyperrectangle
-            Input.
-        :param p: float
-            Input.
-
+        :return: distance in kilometres
         """
-        return haversine_distance([0.0, 0.0], np.maximum(0, np.maximum(self.mins - other.maxes, other.mins - self.maxes)))
+        lat_sep = np.radians(max(0.0, self.mins[0] - other.maxes[0], other.mins[0] - self.maxes[0]))
+        lon_sep, _ = self._lon_separations(other)
+        # The same longitude separation gives the shortest distance at the latitudes furthest from the equator
+        cos_lats = [max(0.0, math.cos(math.radians(max(abs(r.mins[0]), abs(r.maxes[0]))))) for r in (self, other)]
+        hav = math.sin(lat_sep / 2) ** 2 + cos_lats[0] * cos_lats[1] * math.sin(lon_sep / 2) ** 2
+        return 2 * math.asin(math.sqrt(min(1.0, hav))) * RADIUS_EARTH
 
     def max_distance_rectangle(self, other):
         """
-        Compute the maximum distance between points in the two hyperrectangles.
+        Compute an upper bound for the distance between points in the two hyperrectangles.
 
         :param other: hyperrectangle
-            Input.
-        :param p: float, optional
-            Input.
-
+        :return: distance in kilometres
         """
-        return haversine_distance([0.0, 0.0], np.maximum(self.maxes - other.mins, other.maxes - self.mins))
+        lat_sep = np.radians(max(self.maxes[0] - other.mins[0], other.maxes[0] - self.mins[0]))
+        _, lon_sep = self._lon_separations(other)
+        # The same longitude separation gives the longest distance at the latitudes nearest to the equator
+        cos_lats = [1.0 if r.mins[0] <= 0.0 <= r.maxes[0] else
+                    math.cos(math.radians(min(abs(r.mins[0]), abs(r.maxes[0])))) for r in (self, other)]
+        hav = math.sin(lat_sep / 2) ** 2 + cos_lats[0] * cos_lats[1] * math.sin(lon_sep / 2) ** 2
+        return 2 * math.asin(math.sqrt(min(1.0, hav))) * RADIUS_EARTH
 
 
 class KDTree(object):
-- 
2.43.0


From da016c17d88def74d50fff4c5e4b4c8a7fc29309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 002/125] fix: search the kd-tree for nearest points by
 great-circle distance

---
 cis/collocation/kdtree.py | 82 ++++++++++-----------------------------
 1 file changed, 20 insertions(+), 62 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index fcaed26..c8fc437 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -1190,41 +1190,25 @@ class HaversineDistanceKDTree(KDTree):
         self.tree = self._build(indices, self.maxes, self.mins)
 
     def _query(self, x, k=1, eps=0, p=2, distance_upper_bound=np.inf):
-
-        metric = np.array([1.0] * x.size)
-        metric[1] = math.cos(x[1] * math.pi / 180.0)
-        side_distances = np.maximum(0, np.maximum(x - self.maxes, self.mins - x)) * metric
-        if p != np.inf:
-            side_distances **= p
-            min_distance = np.sum(side_distances)
-        else:
-            min_distance = np.amax(side_distances)
-
         # priority queue for chasing nodes
         # entries are:
-        #  minimum distance between the cell and the target
-        #  distances between the nearest side of the cell and the target
+        #  minimum distance between the cell and the target in kilometres
+        #  a counter, so that the nodes themselves are never compared
         #  the head node of the cell
-        q = [(min_distance,
-              tuple(side_distances),
-              self.tree)]
+        #  the rectangle bounding the cell
+        rect = RectangleHaversine(self.maxes, self.mins)
+        count = 0
+        q = [(rect.min_distance_point(x), count, self.tree, rect)]
         # priority queue for the nearest neighbors
         # furthest known neighbor first
-        # entries are (-distance**p, i)
+        # entries are (-distance, i)
         neighbors = []
 
-        if eps == 0:
-            epsfac = 1
-        elif p == np.inf:
-            epsfac = 1 / (1 + eps)
-        else:
-            epsfac = 1 / (1 + eps) ** p
-
-        if p != np.inf and distance_upper_bound != np.inf:
-            distance_upper_bound = distance_upper_bound ** p
-
         while q:
-            min_distance, side_distances, node = heappop(q)
+            min_distance, _, node, rect = heappop(q)
+            # since this is the nearest cell, if it's too far then we're done, bail out
+            if min_distance > distance_upper_bound / (1. + eps):
+                break
             if isinstance(node, HaversineDistanceKDTree.leafnode):
                 # brute-force
                 data = self.data[node.idx]
@@ -1237,41 +1221,15 @@ class HaversineDistanceKDTree(KDTree):
                         if len(neighbors) == k:
                             distance_upper_bound = -neighbors[0][0]
             else:
-                # we don't push cells that are too far onto the queue at all,
-                # but since the distance_upper_bound decreases, we might get
-                # here even if the cell's too far
-                if min_distance > distance_upper_bound * epsfac:
-                    # since this is the nearest cell, we're done, bail out
-                    break
-                # compute minimum distances to the children and push them on
-                if x[node.split_dim] < node.split:
-                    near, far = node.less, node.greater
-                else:
-                    near, far = node.greater, node.less
-
-                # near child is at the same distance as the current node
-                heappush(q, (min_distance, side_distances, near))
-
-                # far child is further by an amount depending only
-                # on the split value
-                sd = list(side_distances)
-                if p == np.inf:
-                    min_distance = max(min_distance, abs(node.split - x[node.split_dim]))
-                elif p == 1:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim])
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-                else:
-                    sd[node.split_dim] = np.abs(node.split - x[node.split_dim]) ** p
-                    min_distance = min_distance - side_distances[node.split_dim] + sd[node.split_dim]
-
-                # far child might be too far, if so, don't bother pushing it
-                if min_distance <= distance_upper_bound * epsfac:
-                    heappush(q, (min_distance, tuple(sd), far))
-
-        if p == np.inf:
-            return sorted([(-d, i) for (d, i) in neighbors])
-        else:
-            return sorted([((-d) ** (1. / p), i) for (d, i) in neighbors])
+                less, greater = rect.split(node.split_dim, node.split)
+                for child, child_rect in ((node.less, less), (node.greater, greater)):
+                    min_distance = child_rect.min_distance_point(x)
+                    # if the child is too far, don't bother pushing it
+                    if min_distance <= distance_upper_bound / (1. + eps):
+                        count += 1
+                        heappush(q, (min_distance, count, child, child_rect))
+
+        return sorted([(-d, i) for (d, i) in neighbors])
 
     def query_ball_tree(self, other, r, p=2., eps=0):
         """Find all pairs of points whose distance is at most r
-- 
2.43.0


From 43b3ad25ca43e91498d74963175cc726daa50767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 003/125] fix: collocate data with no valid points instead of
 failing to build its kd-tree

---
 cis/collocation/kdtree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/kdtree.py b/cis/collocation/kdtree.py
index c8fc437..f691ef6 100644
--- a/cis/collocation/kdtree.py
+++ b/cis/collocation/kdtree.py
@@ -1180,8 +1180,12 @@ class HaversineDistanceKDTree(KDTree):
         self.leafsize = int(leafsize)
         if self.leafsize < 1:
             raise ValueError("leafsize must be at least 1")
-        self.maxes = np.amax(self.data, axis=0)
-        self.mins = np.amin(self.data, axis=0)
+        if self.n > 0:
+            self.maxes = np.amax(self.data, axis=0)
+            self.mins = np.amin(self.data, axis=0)
+        else:
+            # There is nothing to bound, but an empty tree is still a valid (if rather uninteresting) tree
+            self.maxes = self.mins = np.zeros(self.m)
 
         indices = np.arange(self.n)
         if mask is not None:
-- 
2.43.0


From b4542146b402562909a842e5a05e1bd29091499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 004/125] fix: skip missing samples and allow for no valid data
 in nn_horizontal_only collocation

---
 cis/collocation/col_implementations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 3267b57..94abe0b 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -83,8 +83,11 @@ class GeneralUngriddedCollocator(Collocator):
 
         if isinstance(kernel, nn_horizontal_only):
             # Only find the nearest point using the kd-tree, without constraint in other dimensions
-            nearest_points = data_points.iloc[constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)]
-            values[0, :] = nearest_points.vals.values
+            if len(data_points) > 0:
+                nearest_points = data_points.iloc[constraint.haversine_distance_kd_tree_index.find_nearest_point(sample_points)]
+                values[0, :] = nearest_points.vals.values
+                if self.missing_data_for_missing_sample and 'vals' in sample_points:
+                    values[0, np.isnan(sample_points.vals.values)] = np.ma.masked
         else:
             for i, point, con_points in constraint.get_iterator(self.missing_data_for_missing_sample, None, None,
                                                                 data_points, None, sample_points, None):
-- 
2.43.0


From 4375f3871ca0b5e998c62b603c2c2f7a00755ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 005/125] fix: do not ignore a horizontal separation of zero

---
 cis/collocation/col_implementations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 94abe0b..e568aee 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -311,7 +311,7 @@ class SepConstraintKdtree(PointConstraint):
         return np.concatenate([lesser_pressures, greater_pressures])
 
     def constrain_points(self, ref_point, data):
-        if self.haversine_distance_kd_tree_index and self.h_sep:
+        if self.haversine_distance_kd_tree_index and self.h_sep is not None:
             point_indices = self._get_cached_indices(ref_point)
             if point_indices is None:
                 point_indices = self.haversine_distance_kd_tree_index.find_points_within_distance(ref_point, self.h_sep)
@@ -339,7 +339,7 @@ class SepConstraintKdtree(PointConstraint):
 
         indices = False
 
-        if self.haversine_distance_kd_tree_index and self.h_sep:
+        if self.haversine_distance_kd_tree_index and self.h_sep is not None:
             indices = self.haversine_distance_kd_tree_index.find_points_within_distance_sample(points, self.h_sep)
 
         for i, p in points.iterrows():
-- 
2.43.0


From 58f4090cef7416b7b6b89344be361478872edb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 006/125] fix: honour user-supplied variable names and units in
 ungridded and gridded-gridded collocation

---
 cis/collocation/col_implementations.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index e568aee..17e8986 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -65,12 +65,10 @@ class GeneralUngriddedCollocator(Collocator):
         logging.info("--> Collocating...")
 
         # Create output arrays.
-        self.var_name = data.var_name
-        self.var_long_name = data.long_name
-        self.var_standard_name = data.standard_name
-        self.var_units = data.units
-        var_set_details = kernel.get_variable_details(self.var_name, self.var_long_name,
-                                                      self.var_standard_name, self.var_units)
+        var_set_details = kernel.get_variable_details(self.var_name or data.var_name,
+                                                      self.var_long_name or data.long_name,
+                                                      data.standard_name,
+                                                      self.var_units or data.units)
 
         sample_points_count = len(sample_points)
         # Create an empty masked array to store the collocated values. The elements will be unmasked by assignment.
@@ -688,6 +686,11 @@ class GriddedCollocator(Collocator):
                                              coord_names_and_sizes_for_sample_grid, data,
                                              kernel, output_mask, points, self.extrapolate)
 
+        for cube in output_cube if isinstance(output_cube, list) else [output_cube]:
+            cube.var_name = self.var_name or cube.var_name
+            cube.long_name = self.var_long_name or cube.long_name
+            cube.units = self.var_units or cube.units
+
         if not isinstance(output_cube, list):
             return GriddedDataList([output_cube])
         else:
-- 
2.43.0


From 48bab0b9dcde32ffbf620839dd6981c95eb84688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 007/125] fix: mask missing values when reading NetCDF
 variables

---
 cis/data_io/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 9cca09b..859fff1 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -261,7 +261,8 @@ def get_data(var):
     import logging
     # Turn off scaling and masking as we're a bit more lenient about the type of valid min/max.
     var.set_auto_maskandscale(False)
-    # This will still automatically return a masked array based on _FillValue and missing_value
+    # We still want a masked array based on _FillValue and missing_value
+    var.set_auto_mask(True)
     data = var[:]
 
     if hasattr(var, 'valid_max'):
-- 
2.43.0


From 27aa052aa6e8a0965aa3578149dc24a4e7a0e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 008/125] fix: interpolate gridded data correctly for
 decreasing, circular and masked grids and any longitude range

---
 cis/collocation/col_implementations.py   |  15 +--
 cis/collocation/gridded_interpolation.py | 118 ++++++++++++++---------
 2 files changed, 81 insertions(+), 52 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 17e8986..bfefff9 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -124,6 +124,8 @@ class GriddedUngriddedCollocator(Collocator):
                                                          missing_data_for_missing_sample)
         self.extrapolate = extrapolate
         self.interpolator = None
+        self._interpolator_points = None
+        self._interpolator_grid = None
 
     def collocate(self, points, data, constraint, kernel):
         """
@@ -153,21 +155,22 @@ class GriddedUngriddedCollocator(Collocator):
 
         if constraint is not None and not isinstance(constraint, DummyConstraint):
             raise ValueError("A constraint cannot be specified for the GriddedUngriddedCollocator")
-        data_points = data
 
-        # First fix the sample points so that they all fall within the same 360 degree longitude range
+        # Fix the sample points so that they all fall within the same 360 degree longitude range (the interpolator finds
+        # these points in the longitude range of the data)
         _fix_longitude_range(points.coords(), points)
-        # Then fix the data points so that they fall onto the same 360 degree longitude range as the sample points
-        _fix_longitude_range(points.coords(), data_points)
 
         log_memory_profile("GriddedUngriddedCollocator after data retrieval")
 
         logging.info("--> Collocating...")
         logging.info("    {} sample points".format(points.size))
 
-        if self.interpolator is None:
-            # Cache the interpolator
+        grid = [(coord, data.coord_dims(coord)) for coord in data.coords()]
+        if self.interpolator is None or self._interpolator_points is not points or self._interpolator_grid != grid:
+            # Cache the interpolator, to be reused for other data on the same grid
             self.interpolator = GriddedUngriddedInterpolator(data, points, kernel, self.missing_data_for_missing_sample)
+            self._interpolator_points = points
+            self._interpolator_grid = grid
 
         values = self.interpolator(data, fill_value=self.fill_value, extrapolate=self.extrapolate)
 
diff --git a/cis/collocation/gridded_interpolation.py b/cis/collocation/gridded_interpolation.py
index dc234c2..8cec97f 100644
--- a/cis/collocation/gridded_interpolation.py
+++ b/cis/collocation/gridded_interpolation.py
@@ -39,9 +39,7 @@ def extend_circular_data(data, coord_dim):
     coord_slice_in_cube = [slice(None)] * data.ndim
     coord_slice_in_cube[coord_dim] = slice(0, 1)
 
-    data = np.append(data,
-                     data[tuple(coord_slice_in_cube)],
-                     axis=coord_dim)
+    data = np.ma.concatenate([data, data[tuple(coord_slice_in_cube)]], axis=coord_dim)
     return data
 
 
@@ -60,6 +58,7 @@ class GriddedUngriddedInterpolator(object):
         """
         from cis.utils import move_item_to_end
         coords = []
+        sample_points = []
         grid_points = []
         self._circular_coord_dims = []
         self._decreasing_coord_dims = []
@@ -67,8 +66,8 @@ class GriddedUngriddedInterpolator(object):
         # If we have hybrid coordinates then ensure that the vertical dimension of the cube is last, as we will be
         #  performing partial interpolations to pull out vertical columns - which only works if the vertical dim is last
         # We do this first so that the coordinates are pulled out in the correct, new, order.
-        if len(_data.aux_factories) > 0:
-            vertical_dim = _data.coord_dims(_data.aux_factories[0].sigma)[0]
+        vertical_dim = self._find_hybrid_vertical_dim(_data, sample)
+        if vertical_dim is not None:
             self._data_transpose = move_item_to_end(range(_data.ndim), vertical_dim)
         else:
             self._data_transpose = list(range(_data.ndim))
@@ -88,31 +87,29 @@ class GriddedUngriddedInterpolator(object):
                 decreasing = (coord_points.size > 1 and
                               coord_points[1] < coord_points[0])
                 if decreasing:
-                    self._decreasing_coord_dims.append(decreasing)
+                    self._decreasing_coord_dims.append(coord_dim)
                     coord_points = coord_points[::-1]
 
-                if getattr(coord, 'circular', False):
+                coord_sample_points = sample.coord(standard_name=coord.name()).data_flattened
+                circular = getattr(coord, 'circular', False)
+                if coord.name() == 'longitude':
+                    coord_sample_points = self._wrap_longitudes(coord_sample_points, coord_points, circular)
+
+                if circular:
                     self._circular_coord_dims.append(coord_dim)
                     coord_points = extend_circular_coord(coord, coord_points)
 
+                sample_points.append(coord_sample_points)
                 grid_points.append(coord_points)
 
-        sample_points = [sample.coord(c).data_flattened for c in coords]
-
-        if len(data.coords('altitude', dim_coords=False)) > 0 and sample.coords(standard_name='altitude'):
-            hybrid_dims = data.coord_dims(data.coord('altitude'))
-            hybrid_coord = data.coord('altitude').points
-            for coord_dim in self._circular_coord_dims:
-                # Lookup the dimension on the hybrid data array
-                hybrid_coord_dim = hybrid_dims.index(coord_dim)
-                hybrid_coord = extend_circular_data(hybrid_coord, hybrid_coord_dim)
-            sample_points.append(sample.coord(standard_name="altitude").data_flattened)
-        elif len(data.coords('air_pressure', dim_coords=False)) > 0 and sample.coords(standard_name='air_pressure'):
-            hybrid_coord = data.coord('air_pressure').points
-            for coord_dim in self._circular_coord_dims:
-                hybrid_coord = extend_circular_data(hybrid_coord, coord_dim)
-            hybrid_dims = data.coord_dims(data.coord('air_pressure'))
-            sample_points.append(sample.coord(standard_name="air_pressure").data_flattened)
+        hybrid_name = self._find_hybrid_name(data, sample)
+        if hybrid_name is not None:
+            hybrid_dims = data.coord_dims(data.coord(hybrid_name))
+            # The coordinate dimensions aren't necessarily in the same order as those of the (transposed) data
+            hybrid_coord = data.coord(hybrid_name).points.transpose(np.argsort(hybrid_dims))
+            hybrid_dims = tuple(sorted(hybrid_dims))
+            hybrid_coord = self._align_with_grid(hybrid_coord, hybrid_dims)
+            sample_points.append(sample.coord(standard_name=hybrid_name).data_flattened)
         else:
             hybrid_coord = None
             hybrid_dims = None
@@ -122,8 +119,8 @@ class GriddedUngriddedInterpolator(object):
                              "dimenions: {} and {} respectively".format(len(sample_points), len(data.shape)))
 
         # Check if we want to sample missing points
-        if missing_data_for_missing_sample and hasattr(sample.data, 'mask'):
-            self.missing_mask = sample.data.mask.flatten()
+        if missing_data_for_missing_sample and hasattr(getattr(sample, 'data', None), 'mask'):
+            self.missing_mask = np.ma.getmaskarray(sample.data).flatten()
             sample_points = [p[~self.missing_mask] for p in sample_points]
         else:
             self.missing_mask = None
@@ -131,23 +128,52 @@ class GriddedUngriddedInterpolator(object):
         self._interp = _RegularGridInterpolator(grid_points, sample_points,
                                                 hybrid_coord=hybrid_coord, hybrid_dims=hybrid_dims, method=method)
 
-    def _get_dims_order(self, data, coords):
+    @staticmethod
+    def _find_hybrid_name(data, sample):
+        """
+        Return the name of the (multi-dimensional) vertical coordinate to interpolate over, or None if there isn't one
+        """
+        for name in ('altitude', 'air_pressure'):
+            if len(data.coords(name, dim_coords=False)) > 0 and sample.coords(standard_name=name):
+                return name
+        return None
+
+    @classmethod
+    def _find_hybrid_vertical_dim(cls, data, sample):
+        """
+        Return the vertical dimension of the hybrid coordinate, or None if there isn't one
+        """
+        if len(data.aux_factories) > 0:
+            return data.coord_dims(data.aux_factories[0].sigma)[0]
+        hybrid_name = cls._find_hybrid_name(data, sample)
+        if hybrid_name is not None:
+            # This is the dimension which isn't described by any of the other sample coordinates
+            sampled_dims = [data.coord_dims(c)[0] for c in data.coords(dim_coords=True)
+                            if len(sample.coords(standard_name=c.name())) > 0]
+            vertical_dims = [d for d in data.coord_dims(data.coord(hybrid_name)) if d not in sampled_dims]
+            if len(vertical_dims) == 1:
+                return vertical_dims[0]
+        return None
+
+    @staticmethod
+    def _wrap_longitudes(points, grid_points, circular, modulus=360.0):
+        """
+        Express the longitude points in the range of the (increasing) grid longitudes
+        """
+        start = grid_points[0] if circular else 0.5 * (grid_points[0] + grid_points[-1] - modulus)
+        return points - modulus * np.floor((points - start) / modulus)
+
+    def _align_with_grid(self, array, dims):
         """
-        Return the dims with the vertical coord last. There must be a nicer way of doing this...
+        Invert and extend the dimensions of the array to match the (increasing, extended) grid points
         """
-        # Find the only dimension coordinate we haven't yet accounted for - this must be the vertical
-        vertical_coord = list(set([c.name() for c in data.coords(dim_coords=True)]).difference(set(coords)))[0]
-        vertical_dim = data.coord_dims(vertical_coord)[0]
-        # The dim order is just the range of the dims with the vertical dim moved to the end.
-        self._data_transpose.pop(vertical_dim)
-        self._data_transpose.append(vertical_dim)
-
-    def _account_for_inverted(self, data):
-        dim_slices = [slice(None)] * data.ndim
         for dim in self._decreasing_coord_dims:
-                dim_slices[dim] = slice(-1, None, -1)
-        data = data[tuple(dim_slices)]
-        return data
+            if dim in dims:
+                array = np.flip(array, dims.index(dim))
+        for dim in self._circular_coord_dims:
+            if dim in dims:
+                array = extend_circular_data(array, dims.index(dim))
+        return array
 
     def __call__(self, data, fill_value=np.nan, extrapolate=False):
         """
@@ -166,11 +192,8 @@ class GriddedUngriddedInterpolator(object):
 
         # Apply a transpose if we need to so that the indices line-up correctly
         data_array = data.data.transpose(self._data_transpose)
-        # Account for any circular coords present
-        for dim in self._circular_coord_dims:
-            data_array = extend_circular_data(data_array, dim)
-
-        data_array = self._account_for_inverted(data_array)
+        # Account for any decreasing or circular coords present
+        data_array = self._align_with_grid(data_array, tuple(range(data_array.ndim)))
 
         result = self._interp(data_array, fill_value=fill_value)
 
@@ -379,12 +402,15 @@ class _RegularGridInterpolator(object):
 
     @staticmethod
     def _find_vertical_index(point, coord):
-        i = np.searchsorted(coord, point) - 1
+        if coord[0] > coord[-1]:
+            i = np.searchsorted(-coord, -point) - 1
+        else:
+            i = np.searchsorted(coord, point) - 1
         if i < 0:
             i = 0
         if i > coord.size - 2:
             i = coord.size - 2
         norm_distances = ((point - coord[i]) / (coord[i + 1] - coord[i]))
 
-        out_of_bounds = point < coord[0] or point > coord[-1]
+        out_of_bounds = point < min(coord[0], coord[-1]) or point > max(coord[0], coord[-1])
         return i, norm_distances, out_of_bounds
-- 
2.43.0


From a3d8ded7e108ddeb3c52a6c4fa239d03cbdf6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 009/125] fix: do not return an unrelated coordinate when a
 search by standard name or axis finds none

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 929da80..c00b268 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -244,7 +244,7 @@ class CoordList(list):
         from cis.exceptions import CoordinateNotFoundError
         coords = self.get_coords(name_or_coord=name_or_coord, standard_name=standard_name, long_name=long_name,
                                  attributes=attributes, axis=axis, var_name=var_name)
-        if len(coords) == 0:  # If we found none by name, try with standard name only
+        if len(coords) == 0 and name_or_coord is not None:  # If we found none by name, try with standard name only
             coords = self.get_coords(standard_name=name_or_coord)
 
         if len(coords) > 1:
-- 
2.43.0


From eb8bf1ee727609562ebc2304224e8bf771d5422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 010/125] fix: bin every point into the grid cell that contains
 it and support box collocation onto grids

---
 cis/collocation/col_implementations.py | 40 +++++++++++++++++++++++---
 cis/collocation/data_index.py          | 33 +++++++++++----------
 cis/data_io/hyperpoint_view.py         |  7 ++---
 3 files changed, 56 insertions(+), 24 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index bfefff9..3d8f8cf 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -808,7 +808,7 @@ class GeneralGriddedCollocator(Collocator):
 
         # Work out how to iterate over the cube and map HyperPoint coordinates to cube coordinates.
         coord_map = make_coord_map(points, data)
-        if self.missing_data_for_missing_sample and len(coord_map) is not len(points.coords()):
+        if self.missing_data_for_missing_sample and len(coord_map) != points.ndim:
             raise cis.exceptions.UserPrintableException(
                 "A sample variable has been specified but not all coordinates in the data appear in the sample so "
                 "there are multiple points in the sample data so whether the data is missing or not can not be "
@@ -831,10 +831,20 @@ class GeneralGriddedCollocator(Collocator):
             shape.append(coord.shape[0])
             output_coords.append(coord)
 
-        _fix_longitude_range(coords, data_points)
+        for (hpi, ci, shi) in coord_map:
+            if hpi == HyperPoint.LONGITUDE:
+                # Each data point can only be found in a cell if it is within 360 degrees of the first edge of the grid
+                data_points.set_longitude_range(coords[ci].bounds.min())
 
         log_memory_profile("GeneralGriddedCollocator Created output coord map")
 
+        if isinstance(constraint, SepConstraintKdtree):
+            # This works on dataframes, with the sample points in the same order as the (flattened) output
+            data_points = data.as_data_frame(time_index=False, name='vals').dropna(axis=0)
+            sample_points = self._get_sample_data_frame(points, coords, coord_map)
+        else:
+            sample_points = points
+
         # Create index if constraint supports it.
         data_index.create_indexes(constraint, coords, data_points, coord_map)
         data_index.create_indexes(kernel, points, data_points, coord_map)
@@ -871,8 +881,10 @@ class GeneralGriddedCollocator(Collocator):
         else:
             # Iterate over constrained cells
             iterator = constraint.get_iterator(
-                self.missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, values)
+                self.missing_data_for_missing_sample, coord_map, coords, data_points, shape, sample_points, values)
             for out_indices, hp, con_points in iterator:
+                if isinstance(constraint, SepConstraintKdtree):
+                    out_indices = np.unravel_index(out_indices, shape)
                 try:
                     kernel_val = kernel.get_value(hp, con_points)
                     set_value_kernel(kernel_val, values, out_indices)
@@ -914,6 +926,24 @@ class GeneralGriddedCollocator(Collocator):
 
         return output
 
+    def _get_sample_data_frame(self, points, coords, coord_map):
+        """Creates a Pandas DataFrame of the cell centres of the sample grid.
+
+        :param points: cube defining the sample points
+        :param coords: coordinates of the sample cube
+        :param coord_map: mapping of standard coordinates to sample and output coordinates
+        :return: DataFrame with a row for each output cell, in order. If sample points with missing values should be
+         ignored then this includes their values (NaN for those missing)
+        """
+        import pandas as pd
+        grid = np.meshgrid(*[coords[ci].points for (hpi, ci, shi) in coord_map], indexing='ij')
+        sample_points = pd.DataFrame({HyperPoint.standard_names[hpi]: grid[shi].ravel() for (hpi, ci, shi) in coord_map})
+        if self.missing_data_for_missing_sample:
+            missing = np.ma.getmaskarray(points.data).transpose([points.coord_dims(coords[ci])[0]
+                                                                 for (hpi, ci, shi) in coord_map])
+            sample_points['vals'] = np.where(missing, np.nan, 0.0).ravel()
+        return sample_points
+
     def _set_multi_value_kernel(self, kernel_val, values, indices):
         # This kernel returns multiple values:
         for idx, val in enumerate(kernel_val):
@@ -1010,7 +1040,9 @@ class BinnedCubeCellOnlyConstraint(Constraint):
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
 
         for out_indices, slice_start_end in self.grid_cell_bin_index_slices.get_iterator():
-            if not missing_data_for_missing_sample or points.data[out_indices] is not np.ma.masked:
+            # Remap the indices to match the data coordinate order, using the coord_map provided
+            remapped_indices = tuple(np.asarray(out_indices)[[c[2] for c in sorted(coord_map, key=lambda x: x[1])]])
+            if not missing_data_for_missing_sample or points.data[remapped_indices] is not np.ma.masked:
                 # iterate through the points which are within the same cell
 
                 con_points = HyperPointList()
diff --git a/cis/collocation/data_index.py b/cis/collocation/data_index.py
index a80c080..f40c08c 100644
--- a/cis/collocation/data_index.py
+++ b/cis/collocation/data_index.py
@@ -45,7 +45,7 @@ class GridCellBinIndexInSlices(object):
         coord_descreasing = [False] * len(coords)
         coord_lengths = [0] * len(coords)
         lower_bounds = [None] * len(coords)
-        max_bounds = [None] * len(coords)
+        upper_bounds = [None] * len(coords)
         for (hpi, ci, shi) in coord_map:
             coord = coords[ci]
             # Coordinates must be monotonic; determine whether increasing or decreasing.
@@ -53,35 +53,35 @@ class GridCellBinIndexInSlices(object):
                 if coord.points[1] < coord.points[0]:
                     coord_descreasing[shi] = True
             coord_lengths[shi] = len(coord.points)
+            # The two bounds of each cell may be in either order
+            lower_bounds[shi] = np.min(coord.bounds, axis=1)
+            upper_bounds[shi] = np.max(coord.bounds, axis=1)
             if coord_descreasing[shi]:
-                lower_bounds[shi] = coord.bounds[::-1, 1]
-                max_bounds[shi] = coord.bounds[0, 1]
-            else:
-                lower_bounds[shi] = coord.bounds[::, 0]
-                max_bounds[shi] = coord.bounds[-1, 1]
+                lower_bounds[shi] = lower_bounds[shi][::-1]
+                upper_bounds[shi] = upper_bounds[shi][::-1]
+            # Cells which touch share an edge (however that has been rounded), otherwise there is a gap between them
+            touching = np.isclose(upper_bounds[shi][:-1], lower_bounds[shi][1:], rtol=1e-9, atol=1e-9)
+            upper_bounds[shi][:-1] = np.where(touching, lower_bounds[shi][1:], upper_bounds[shi][:-1])
 
             hp_coord = hyper_points.coords[hpi]
-            if isinstance(hp_coord[0], datetime.datetime):
+            if len(hp_coord) > 0 and isinstance(hp_coord[0], datetime.datetime):
                 hp_coord = convert_datetime_to_std_time(hp_coord)
 
             hp_coords.append(hp_coord)
 
-        bounds_coords_max = list(zip(lower_bounds, hp_coords, max_bounds))
+        bounds_coords_max = list(zip(lower_bounds, hp_coords, upper_bounds))
 
         # stack for each coordinate
-        #    where the coordinate is larger than the maximum set to -1
+        #    where the coordinate is larger than the upper bound of the cell below it set to -1
         #    otherwise search in the sorted coordinate to find all the index of the hyperpoints
         # The choice of 'left' or 'right' and '<' and '<=' determines which
         #  cell is chosen when the coordinate is equal to the boundary.
         # -1 or M_i indicates the point is outside the grid.
         # Output is a list of coordinates which lists the indexes where the hyper points
         #    should be located in the grid
-        indices = np.vstack(
-            [np.where(
-                 ci < max_coordinate_value,
-                 np.searchsorted(bi, ci, side='right') - 1,
-                 -1)
-             for bi, ci, max_coordinate_value in bounds_coords_max])
+        cells_below = [np.searchsorted(bi, ci, side='right') - 1 for bi, ci, upper in bounds_coords_max]
+        indices = np.vstack([np.where(ci < upper[cells], cells, -1)
+                             for cells, (bi, ci, upper) in zip(cells_below, bounds_coords_max)])
 
         # D-tuple giving the shape of the output grid
         grid_shape = tuple(len(bi_ci[0]) for bi_ci in bounds_coords_max)
@@ -131,6 +131,9 @@ class GridCellBinIndexInSlices(object):
         :return: an iterator out_indices, cell_slice_indices
         """
 
+        if len(self.cell_numbers) == 0:
+            return
+
         # find the index at which the cell number changes, +1 to make this the first point with the new
         # cell number
         indexes_of_first_element_in_slice = np.flatnonzero(np.diff(self.cell_numbers)) + 1
diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 8238e06..f1bc236 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -71,7 +71,7 @@ class UngriddedHyperPointView(HyperPointView):
         self.data = data
         self.coords = coords
         # Data and all coordinates should have the same size.
-        self.length = coords[0].size
+        self.length = next(c.size for c in coords if c is not None)
         self.non_masked_iteration = non_masked_iteration
 
     def __getitem__(self, item):
@@ -158,11 +158,8 @@ class UngriddedHyperPointView(HyperPointView):
         if self.longitude is None:
             return
 
-        range_end = range_start + 360.0
-
         longitudes = self.coords[HyperPoint.LONGITUDE]
-        longitudes = np.where(longitudes < range_start, longitudes + 360, longitudes)
-        self.coords[HyperPoint.LONGITUDE] = np.where(longitudes >= range_end, longitudes - 360, longitudes)
+        self.coords[HyperPoint.LONGITUDE] = longitudes - 360.0 * np.floor((longitudes - range_start) / 360.0)
 
     @property
     def vals(self):
-- 
2.43.0


From 7a6fac3c5feeb0f230507c00ef3a0fe13fdf9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 011/125] fix: find sample longitudes in the range of the data
 in gridded-gridded collocation, leaving the data as it is

---
 cis/collocation/col_implementations.py | 42 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 3d8f8cf..2d00bfa 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -614,8 +614,14 @@ class GriddedCollocator(Collocator):
         """
         self._check_for_valid_kernel(kernel)
 
-        # Force the data longitude range to be the same as that of the sample grid.
-        _fix_longitude_range(points.coords(), data)
+        if isinstance(data, list):
+            output = GriddedDataList()
+            for var in data:
+                output.extend(self.collocate(points, var, constraint, kernel))
+            return output
+
+        # The sample longitudes are found in the longitude range of the data by the interpolation itself
+        data = self._mark_circular_longitude(data)
 
         # Initialise variables used to create an output mask based on the sample data mask.
         sample_coord_lookup = {}  # Maps coordinate in sample data -> location in dimension order
@@ -689,15 +695,25 @@ class GriddedCollocator(Collocator):
                                              coord_names_and_sizes_for_sample_grid, data,
                                              kernel, output_mask, points, self.extrapolate)
 
-        for cube in output_cube if isinstance(output_cube, list) else [output_cube]:
-            cube.var_name = self.var_name or cube.var_name
-            cube.long_name = self.var_long_name or cube.long_name
-            cube.units = self.var_units or cube.units
+        output_cube.var_name = self.var_name or output_cube.var_name
+        output_cube.long_name = self.var_long_name or output_cube.long_name
+        output_cube.units = self.var_units or output_cube.units
 
-        if not isinstance(output_cube, list):
-            return GriddedDataList([output_cube])
-        else:
-            return output_cube
+        return GriddedDataList([output_cube])
+
+    @staticmethod
+    def _mark_circular_longitude(data):
+        """ Ensures that data which goes all the way around the globe is interpolated as such
+        :param data: The Iris cube with the data to be collocated
+        :return: The data, or a copy with a circular longitude coordinate
+        """
+        for coord in data.coords(standard_name='longitude', dim_coords=True):
+            spacing = np.abs(np.diff(coord.points))
+            gap = 360.0 - np.ptp(coord.points)
+            if not coord.circular and len(spacing) > 0 and 0.0 < gap <= spacing.max() * 1.001:
+                data = data.copy()
+                data.coord(standard_name='longitude', dim_coords=True).circular = True
+        return data
 
     @staticmethod
     def _make_output_mask(coord_names_and_sizes_for_sample_grid, output_shape, points, repeat_size):
@@ -748,11 +764,7 @@ class GriddedCollocator(Collocator):
         transpose_map = [output_coord_lookup[coord[0]] for coord in coord_names_and_sizes_for_output_grid]
         output_cube.transpose(transpose_map)
 
-        if isinstance(output_cube, list):
-            for idx, data in enumerate(output_cube):
-                output_cube[idx].data = cis.utils.apply_mask_to_numpy_array(data.data, output_mask)
-        else:
-            output_cube.data = cis.utils.apply_mask_to_numpy_array(output_cube.data, output_mask)
+        output_cube.data = cis.utils.apply_mask_to_numpy_array(output_cube.data, output_mask)
         return output_cube
 
 
-- 
2.43.0


From 54966226f3dcc8e14f5bc5113415da3dbd4d2923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 012/125] fix: re-express gridded longitudes wherever they lie,
 in either direction and with bounds of auxiliary coordinates

---
 cis/data_io/gridded_data.py | 77 +++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index dd60cdf..d599c3d 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -200,41 +200,34 @@ class GriddedData(iris.cube.Cube, CommonData):
         if len(lon_coord) == 0:
             return
         lon_coord = lon_coord[0]
-        lon_idx = self.dim_coords.index(lon_coord)
-        # Check if there are bounds which we will need to wrap as well
-        roll_bounds = (lon_coord.bounds is not None) and (lon_coord.bounds.size != 0)
-        idx1 = np.searchsorted(lon_coord.points, range_start)
-        idx2 = np.searchsorted(lon_coord.points, range_start + 360.)
-        shift = 0
-        new_lon_points = None
+
+        # Work out the change needed to each of the longitudes...
+        new_lon_points = lon_coord.points
+        offsets = 360 * np.floor((new_lon_points - range_start) / 360.).astype(new_lon_points.dtype)
+        if not np.any(offsets):
+            return
+        new_lon_points = new_lon_points - offsets
+
+        # Check if there are bounds which we will need to wrap as well. Both bounds move along with the point, we can't do
+        # the check independently because there may be cases where an upper or lower bound falls outside of the
+        # 360 range, we leave those as they are to preserve monotonicity. See e.g. test_set_longitude_bounds_wrap_at_360
         new_lon_bounds = None
-        if 0 < idx1 < len(lon_coord.points):
-            shift = -idx1
-            lon_min = lon_coord.points[idx1]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            # Calculate which indices need 360 adding to them...
-            indices_to_shift_value_of = new_lon_points < lon_min
-            # ... then, add 360 to all those longitude values
-            new_lon_points[indices_to_shift_value_of] += 360.0
-            if roll_bounds:
-                # If the coordinate has bounds then roll those as well
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # And shift all of the bounds (upper and lower) for those points which we had to shift. We can't do the
-                # check independently because there may be cases where an upper or lower bound falls outside of the
-                # 360 range, we leave those as they are to preserve monotonicity. See e.g.
-                # test_set_longitude_bounds_wrap_at_360
-                new_lon_bounds[indices_to_shift_value_of] += 360.0
-        elif 0 < idx2 < len(lon_coord.points):
-            shift = len(lon_coord.points) - idx2
-            lon_max = lon_coord.points[idx2]
-            new_lon_points = np.roll(lon_coord.points, shift, 0)
-            indices_to_shift_value_of = new_lon_points >= lon_max
-            new_lon_points[indices_to_shift_value_of] -= 360.0
-            if roll_bounds:
-                new_lon_bounds = np.roll(lon_coord.bounds, shift, 0)
-                # See comment above re preserving monotinicity.
-                new_lon_bounds[indices_to_shift_value_of] -= 360.0
+        if (lon_coord.bounds is not None) and (lon_coord.bounds.size != 0):
+            new_lon_bounds = lon_coord.bounds - offsets[..., np.newaxis]
+
+        shift = 0
+        if lon_coord in self.dim_coords and len(new_lon_points) > 1:
+            lon_idx = self.coord_dims(lon_coord)[0]
+            # Rotate everything if there is a point where the longitudes are no longer in order
+            increasing = lon_coord.points[1] > lon_coord.points[0]
+            steps = np.diff(new_lon_points) if increasing else -np.diff(new_lon_points)
+            breaks = np.flatnonzero(steps < 0)
+            if len(breaks) > 0:
+                shift = -(int(breaks[0]) + 1)
         if shift != 0:
+            new_lon_points = np.roll(new_lon_points, shift, 0)
+            if new_lon_bounds is not None:
+                new_lon_bounds = np.roll(new_lon_bounds, shift, 0)
             # Ensure we also roll any auxilliary coordinates
             for aux_coord in self.aux_coords:
                 # Find all of the data dimensions which the auxiliary coordinate spans...
@@ -243,15 +236,17 @@ class GriddedData(iris.cube.Cube, CommonData):
                 if lon_idx in dims:
                     # Now roll the axis of the auxiliary coordinate which is associated with the longitude data
                     # dimension: dims.index(lon_idx)
-                    new_points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
-                    aux_coord.points = new_points
+                    aux_bounds = aux_coord.bounds
+                    aux_coord.points = np.roll(aux_coord.points, shift, dims.index(lon_idx))
+                    if aux_bounds is not None:
+                        aux_coord.bounds = np.roll(aux_bounds, shift, dims.index(lon_idx))
             # Now roll the data itself
-            new_data = np.roll(self.data, shift, lon_idx)
-            self.data = new_data
-            # Put the new coordinates back in their relevant places
-            self.dim_coords[lon_idx].points = new_lon_points
-            if roll_bounds:
-                self.dim_coords[lon_idx].bounds = new_lon_bounds
+            self.data = np.roll(self.data, shift, lon_idx)
+
+        # Put the new coordinates back in their relevant places
+        lon_coord.points = new_lon_points
+        if new_lon_bounds is not None:
+            lon_coord.bounds = new_lon_bounds
 
     def add_attributes(self, attributes):
         """
-- 
2.43.0


From 5968ed4bb61446dab2e9947d44c10fba03ff5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 013/125] fix: aggregate ungridded data onto exactly the
 requested cells and only over coordinates that exist

---
 cis/aggregation/ungridded_aggregator.py | 4 +++-
 cis/collocation/col_implementations.py  | 5 ++++-
 cis/data_io/common_data.py              | 3 ++-
 cis/data_io/ungridded_data.py           | 9 ++++++++-
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/cis/aggregation/ungridded_aggregator.py b/cis/aggregation/ungridded_aggregator.py
index 6f356e9..4e36599 100644
--- a/cis/aggregation/ungridded_aggregator.py
+++ b/cis/aggregation/ungridded_aggregator.py
@@ -142,7 +142,9 @@ class UngriddedAggregator(object):
 
 def aggregation_grid_array(start, end, delta):
     from cis.time_util import cis_standard_time_unit
-    new_grid = np.arange(start + delta / 2, end + delta / 2, delta)
+    # Find the number of cells first, as rounding errors could otherwise lead to an extra cell beyond the end
+    n_cells = int(np.ceil(np.round((end - start) / delta, 6)))
+    new_grid = start + delta / 2 + delta * np.arange(n_cells)
     if 'datetime64' in str(new_grid.dtype):
         # This goes via datetimes with all the associated overheads but is probably safer than doing it manually
         new_grid = cis_standard_time_unit.date2num(new_grid.astype(datetime))
diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 2d00bfa..1b93ec1 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -846,7 +846,10 @@ class GeneralGriddedCollocator(Collocator):
         for (hpi, ci, shi) in coord_map:
             if hpi == HyperPoint.LONGITUDE:
                 # Each data point can only be found in a cell if it is within 360 degrees of the first edge of the grid
-                data_points.set_longitude_range(coords[ci].bounds.min())
+                range_start = coords[ci].bounds.min()
+                # (unless the coordinate is to be collapsed, in which case every point is in the one cell)
+                if np.isfinite(range_start):
+                    data_points.set_longitude_range(range_start)
 
         log_memory_profile("GeneralGriddedCollocator Created output coord map")
 
diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index 6c4901b..049f058 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -215,8 +215,9 @@ class CommonData(object):
                 coord = None
             return coord
 
+        # Note that a search for a standard name of None would match any coordinate
         coord = _try_coord(self, dict(name_or_coord=name)) or _try_coord(self, dict(standard_name=name)) \
-            or _try_coord(self, dict(standard_name=standard_axes.get(name.upper(), None))) or \
+            or _try_coord(self, dict(standard_name=standard_axes.get(name.upper(), name))) or \
                 _try_coord(self, dict(var_name=name)) or _try_coord(self, dict(axis=name))
 
         return coord
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 052d0ee..3b9e201 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1266,6 +1266,7 @@ def _aggregate_ungridded(data, how, **kwargs):
     from cis.aggregation.ungridded_aggregator import UngriddedAggregator
     from cis.collocation.col import get_kernel
     from cis.time_util import PartialDateTime
+    from cis.exceptions import CoordinateNotFoundError
     from datetime import datetime, timedelta
     from cis import __version__
 
@@ -1273,7 +1274,13 @@ def _aggregate_ungridded(data, how, **kwargs):
     grid_spec = {}
     for dim_name, grid in kwargs.items():
         c = data._get_coord(dim_name)
-        if all(hasattr(grid, att) for att in ('start', 'stop', 'step')):
+        if c is None:
+            raise CoordinateNotFoundError("No coordinate found that matches '{}'. Please check the coordinate "
+                                          "name.".format(dim_name))
+        if grid is None:
+            # No grid is specified so the coordinate is collapsed completely, like those which aren't mentioned
+            continue
+        elif all(hasattr(grid, att) for att in ('start', 'stop', 'step')):
             g = grid
         elif len(grid) == 2 and isinstance(grid[0], PartialDateTime):
             g = slice(grid[0].min(), grid[0].max(), grid[1])
-- 
2.43.0


From 579fc7a42451f50c5f14e8099351ea709822cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 014/125] fix: refuse to aggregate over a coordinate whose grid
 would be ignored

---
 cis/aggregation/ungridded_aggregator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cis/aggregation/ungridded_aggregator.py b/cis/aggregation/ungridded_aggregator.py
index 4e36599..5e3fb59 100644
--- a/cis/aggregation/ungridded_aggregator.py
+++ b/cis/aggregation/ungridded_aggregator.py
@@ -14,6 +14,7 @@ class UngriddedAggregator(object):
         collocating using the appropriate kernel and a cube cell constraint
         """
         from cis.exceptions import CoordinateNotFoundError
+        from cis.data_io.hyperpoint import HyperPoint
         from iris.cube import Cube
         from cis.collocation.col_implementations import GeneralGriddedCollocator, BinnedCubeCellOnlyConstraint
         new_cube_coords = []
@@ -22,6 +23,10 @@ class UngriddedAggregator(object):
         for i, coord in enumerate(data.coords()):
             # Pop off the grid once we have it so that we can check for coords we didn't find
             grid = self._grid.pop(coord.name(), None)
+            if grid is not None and coord.standard_name not in HyperPoint.standard_names:
+                # The points could only be collapsed over this coordinate
+                raise CoordinateNotFoundError("Unable to aggregate over coordinate '{}' as it is not one of {}."
+                                              .format(coord.name(), HyperPoint.standard_names))
             if grid is None:
                 new_coord = self._make_fully_collapsed_coord(coord)
             else:
-- 
2.43.0


From c9cda0ca2d28d85b831ae664a6336562f53cf61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 015/125] fix: collapse auxiliary coordinates over their own
 dimensions, keep hybrid coordinates and input data intact, and do not weight
 sums by area

---
 cis/aggregation/gridded_collapsor.py | 40 +++++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/cis/aggregation/gridded_collapsor.py b/cis/aggregation/gridded_collapsor.py
index c1c9ebc..a9a50c1 100644
--- a/cis/aggregation/gridded_collapsor.py
+++ b/cis/aggregation/gridded_collapsor.py
@@ -57,14 +57,6 @@ class GriddedCollapsor(object):
 
         return new_dims
 
-    @staticmethod
-    def _update_aux_factories(data, *args, **kwargs):
-        from cis.utils import listify
-        d_list = listify(data)
-        for d in d_list:
-            for factory in d.aux_factories:
-                factory.update(*args, **kwargs)
-
     def _gridded_full_collapse(self, kernel):
         from copy import deepcopy
         from cis.exceptions import ClassNotFoundError
@@ -85,7 +77,8 @@ class GriddedCollapsor(object):
                 # ... add it to our list of partial coordinates to collapse.
                 coords_for_partial_collapse.append((coord, coord_dims))
 
-        if isinstance(kernel, iris.analysis.WeightedAggregator) and \
+        # Means are weighted by area, a sum is just the sum of the data points
+        if isinstance(kernel, iris.analysis.WeightedAggregator) and kernel is not iris.analysis.SUM and \
                         'latitude' in [c.standard_name for c in self.coords]:
             # If this is a list we can calculate weights using the first item (all variables should be on
             # same grid)
@@ -100,36 +93,51 @@ class GriddedCollapsor(object):
         #  when using a MultiKernel for which this routine gets called multiple times.
         data_for_collapse = deepcopy(self.data)
 
+        # The same goes for any aux factories which depend on those coordinates (which is quite likely)
+        factories = [(i, factory) for i, factory in enumerate(self.data.aux_factories)
+                     if any(coord is dependency for coord, _ in coords_for_partial_collapse
+                            for dependency in factory.dependencies.values())]
+        for factory in [data_for_collapse.aux_factories[i] for i, _ in factories]:
+            data_for_collapse.remove_aux_factory(factory)
+
         for coord, _ in coords_for_partial_collapse:
             data_for_collapse.remove_coord(coord)
 
         # Having set-up the collapse we can now just defer to the Cube.collapse method for much of the leg-work
         new_data = iris.cube.Cube.collapsed(data_for_collapse, self.coords, kernel, **ag_args)
 
+        collapsed_coords = {}
         for coord, old_dims in coords_for_partial_collapse:
-            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, dims_to_collapse)
+            # Find the dimensions to collapse among the dimensions of the coordinate itself
+            coord_dims_to_collapse = [i for i, dim in enumerate(old_dims) if dim in dims_to_collapse]
+            collapsed_coord = GriddedCollapsor._partially_collapse_multidimensional_coord(coord, coord_dims_to_collapse)
             new_dims = GriddedCollapsor._calc_new_dims(old_dims, dims_to_collapse)
 
             new_data.add_aux_coord(collapsed_coord, new_dims)
-            # If the coordinate we had to collapse manually was a dependency in an aux factory (which is quite likely)
-            #  then we need to put it back in and fix the factory, this will update any missing dependencies.
-            self._update_aux_factories(new_data, None, collapsed_coord)
+            collapsed_coords[id(coord)] = collapsed_coord
+
+        # Now put back the aux factories, using the coordinates we had to collapse manually and those of the new data
+        for _, factory in factories:
+            new_dependencies = {id(dependency): collapsed_coords.get(id(dependency)) or new_data.coord(dependency)
+                                for dependency in factory.dependencies.values() if dependency is not None}
+            new_data.add_aux_factory(factory.updated(new_dependencies))
 
         return new_data
 
     def __call__(self, kernel):
+        from copy import deepcopy
         from cis.data_io.gridded_data import GriddedDataList
         from cis.aggregation.collapse_kernels import MultiKernel
 
+        # The bounds are only added to a copy of the data, the input is not to be changed
+        self.data = deepcopy(self.data)
+
         # Make sure all coordinate have bounds - important for weighting and aggregating
         # Only try and guess bounds on Dim Coords
         for coord in self.data.coords(dim_coords=True):
             if not coord.has_bounds() and len(coord.points) > 1:
                 coord.guess_bounds()
                 logging.warning("Creating guessed bounds as none exist in file")
-                new_coord_number = self.data.coord_dims(coord)
-                self.data.remove_coord(coord.name())
-                self.data.add_dim_coord(coord, new_coord_number)
 
         output = GriddedDataList([])
         if isinstance(kernel, MultiKernel):
-- 
2.43.0


From 6cc4829ec76ea7da89af58ab8ad65cc424c9ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 016/125] fix: subset every variable of a list by the shape,
 keep user limits given with a shape, open-ended datetime limits, empty lists
 and longitudes in any range

---
 cis/subsetting/subset.py | 74 ++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 40 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index 170c40b..a6c5565 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -38,10 +38,6 @@ def subset(data, constraint, **kwargs):
             else:
                 shape = limit
             constraints['shape'] = shape
-            bounding_box = shape.bounds
-            # Create the lat/lon box - this will be used to speed up the shape subset
-            constraints[data.coord(standard_name='longitude').name()] = slice(bounding_box[0], bounding_box[2])
-            constraints[data.coord(standard_name='latitude').name()] = slice(bounding_box[1], bounding_box[3])
             continue
 
         c = data._get_coord(dim_name)
@@ -66,6 +62,12 @@ def subset(data, constraint, **kwargs):
 
         constraints[data._get_coord(dim_name).name()] = slice(limit_start, limit_end)
 
+    if 'shape' in constraints:
+        bounding_box = constraints['shape'].bounds
+        # Create the lat/lon box - this will be used to speed up the shape subset (any other limits given still apply)
+        constraints.setdefault(data.coord(standard_name='longitude').name(), slice(bounding_box[0], bounding_box[2]))
+        constraints.setdefault(data.coord(standard_name='latitude').name(), slice(bounding_box[1], bounding_box[3]))
+
     subset_constraint = constraint(constraints)
 
     subset = subset_constraint.constrain(data)
@@ -88,7 +90,7 @@ class SubsetConstraint(object):
         :param dict limits: A dictionary mapping coordinate name to slice objects
         """
         self._limits = limits
-        self._shape = shape
+        self._shape = limits.pop('shape', shape)
         logging.debug("Created SubsetConstraint of type %s", self.__class__.__name__)
 
     def __str__(self):
@@ -119,7 +121,6 @@ class GriddedSubsetConstraint(SubsetConstraint):
         :return: subsetted data or None if all data excluded.
         @rtype: cis.data_io.gridded_data.GriddedData
         """
-        _shape = self._limits.pop('shape', None)
         extract_constraint, intersection_constraint = self._make_extract_and_intersection_constraints(data)
         if extract_constraint is not None:
             data = data.extract(extract_constraint)
@@ -131,11 +132,11 @@ class GriddedSubsetConstraint(SubsetConstraint):
             except IndexError:
                 return None
 
-        if _shape is not None:
+        if self._shape is not None:
             if data.ndim > 2:
                 raise NotImplementedError("Unable to perform shape subset for multidimensional gridded datasets")
             mask = np.ones(data.shape, dtype=bool)
-            mask[np.unravel_index(_get_gridded_subset_region_indices(data, _shape), data.shape)] = False
+            mask[np.unravel_index(_get_gridded_subset_region_indices(data, self._shape), data.shape)] = False
             if isinstance(data.data, np.ma.MaskedArray):
                 data.data.mask &= mask
             else:
@@ -198,33 +199,34 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             # so we can just call this method recursively if we've got a list of data.
             output = UngriddedDataList()
             for var in data:
-                output.append(self.constrain(var))
+                var_subset = self.constrain(var)
+                if var_subset is None:
+                    # The variables share their coordinates so there is no data for any of them
+                    return None
+                output.append(var_subset)
             return output
 
         _data = self._create_data_for_subset(data)
 
-        _shape = self._limits.pop('shape', None)
-
         if self._combined_mask is None:
             # Create the combined mask across all limits
             shape = _data.coords()[0].data.shape  # This assumes they are all the same shape
             combined_mask = np.ones(shape, dtype=bool)
             for coord, limit in self._limits.items():
-                # Convert the points to datetimes if the limit is a datetime
-                if isinstance(limit.start, datetime):
-                    points = _data.coord(coord).units.num2date(_data.coord(coord).data)
-                else:
-                    points = _data.coord(coord).data
+                points = _data.coord(coord).data
+                # Convert the limits to the units of the points if they are datetimes
+                start, stop = [_data.coord(coord).units.date2num(l) if isinstance(l, datetime) else l
+                               for l in (limit.start, limit.stop)]
                 # Select any points which are <= to the stop limit AND >= to the start limit
-                mask = (np.less_equal(points, limit.stop) & np.greater_equal(points, limit.start))
+                mask = (np.less_equal(points, stop) & np.greater_equal(points, start))
                 combined_mask &= mask
             self._combined_mask = combined_mask
 
         _data = _data[self._combined_mask]
 
-        if _shape is not None:
+        if self._shape is not None:
             if self._shape_indices is None:
-                self._shape_indices = _get_ungridded_subset_region_indices(_data, _shape)
+                self._shape_indices = np.array(_get_ungridded_subset_region_indices(_data, self._shape), dtype=int)
             _data = _data[np.unravel_index(self._shape_indices, _data.shape)]
 
         if _data.size == 0:
@@ -250,29 +252,20 @@ class UngriddedSubsetConstraint(SubsetConstraint):
                 # E.g. shape...
                 continue
             if coord.standard_name == 'longitude':
-                coord_min = coord.points.min()
-                coord_max = coord.points.max()
-                data_below_zero = coord_min < 0
-                data_above_180 = coord_max > 180
-                limits_below_zero = limit.start < 0 or limit.stop < 0
-                limits_above_180 = limit.start > 180 or limit.stop > 180
-
-                if data_below_zero and not data_above_180:
-                    # i.e. data is in the range -180 -> 180
-                    # Only convert the data if the limits are above 180:
-                    if limits_above_180 and not limits_below_zero:
-                        # Convert data from -180 -> 180 to 0 -> 360
-                        range_start = 0
-                        coord.set_longitude_range(range_start)
-                elif data_above_180 and not data_below_zero:
-                    # i.e. data is in the range 0 -> 360
-                    if limits_below_zero and not limits_above_180:
-                        # Convert data from 0 -> 360 to -180 -> 180
-                        range_start = -180
-                        coord.set_longitude_range(range_start)
+                # Only convert the points which aren't within the limits as they are
+                coord.data = _shift_longitudes_into_range(coord.data, limit.start, limit.stop)
         return data
 
 
+def _shift_longitudes_into_range(lons, start, stop):
+    """
+    Shift any longitudes which aren't within the given range by the multiple of 360 degrees which brings them to within
+    360 degrees above the start of the range.
+    """
+    where = np.ma.where if isinstance(lons, np.ma.MaskedArray) else np.where
+    return where((lons < start) | (lons > stop), lons + 360.0 * np.ceil((start - lons) / 360.0), lons)
+
+
 def _get_indices_for_lat_lon_points(lats, lons, region):
     from shapely.geometry import MultiPoint
 
@@ -286,7 +279,8 @@ def _get_indices_for_lat_lon_points(lats, lons, region):
 
 def _get_ungridded_subset_region_indices(ungridded_data, region):
     # We have to use flatten rather than flat, GEOS creates a copy of the data if it's a view anyway.
-    return _get_indices_for_lat_lon_points(ungridded_data.lon.data.flatten(), ungridded_data.lat.data.flatten(), region)
+    lons = _shift_longitudes_into_range(ungridded_data.lon.data.flatten(), region.bounds[0], region.bounds[2])
+    return _get_indices_for_lat_lon_points(lons, ungridded_data.lat.data.flatten(), region)
 
 
 def _get_gridded_subset_region_indices(gridded_data, region):
-- 
2.43.0


From 47fc4a6bc3f1b63d7af4b67e423f93a213026aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 017/125] fix: subset gridded data exactly: inclusive
 open-ended and time limits, wrapping, scalar coordinates, shapes over any
 dimension order and lists

---
 cis/subsetting/subset.py | 168 ++++++++++++++++++++++++++-------------
 1 file changed, 113 insertions(+), 55 deletions(-)

diff --git a/cis/subsetting/subset.py b/cis/subsetting/subset.py
index a6c5565..bd25dd4 100644
--- a/cis/subsetting/subset.py
+++ b/cis/subsetting/subset.py
@@ -3,9 +3,6 @@ import six
 import logging
 
 import numpy as np
-import iris
-import iris.coords
-
 import cis.data_io.gridded_data as gridded_data
 
 
@@ -115,64 +112,110 @@ class GriddedSubsetConstraint(SubsetConstraint):
 
     def constrain(self, data):
         """
-        Subsets the supplied data using a combination of iris.cube.Cube.extract and iris.cube.Cube.intersection,
-        depending on whether intersection is supported (whether the coordinate has a defined modulus).
+        Subsets the supplied data by each of the limits, wrapping the coordinate if it has a defined modulus.
         :param data: data to be subsetted
         :return: subsetted data or None if all data excluded.
         @rtype: cis.data_io.gridded_data.GriddedData
         """
-        extract_constraint, intersection_constraint = self._make_extract_and_intersection_constraints(data)
-        if extract_constraint is not None:
-            data = data.extract(extract_constraint)
+        if isinstance(data, list):
+            output = gridded_data.GriddedDataList()
+            for var in data:
+                var_subset = self.constrain(var)
+                if var_subset is None:
+                    # The variables share their coordinates so there is no data for any of them
+                    return None
+                output.append(var_subset)
+            return output
+
+        original = data
+        for coord, limits in self._limits.items():
+            data = self._extract(data, data.coord(coord), limits)
             if data is None:
-                return None  # Don't do the intersection
-        if intersection_constraint:
-            try:
-                data = data.intersection(**intersection_constraint)
-            except IndexError:
                 return None
 
+        if data is original:
+            # Nothing was excluded, but the original mustn't be changed when changing the subset
+            data = data.copy()
+
         if self._shape is not None:
             if data.ndim > 2:
                 raise NotImplementedError("Unable to perform shape subset for multidimensional gridded datasets")
             mask = np.ones(data.shape, dtype=bool)
             mask[np.unravel_index(_get_gridded_subset_region_indices(data, self._shape), data.shape)] = False
-            if isinstance(data.data, np.ma.MaskedArray):
-                data.data.mask &= mask
-            else:
-                data.data = np.ma.masked_array(data.data, mask)
+            # Any data which is already missing should stay missing
+            data.data = np.ma.masked_where(mask, data.data)
         return gridded_data.make_from_cube(data)
 
-    def _make_extract_and_intersection_constraints(self, data):
+    @staticmethod
+    def _get_extent(coord):
         """
-        Make the appropriate constraints:
-        - dictionary of coord_name -> (min, max) for coordinates with defined modulus (to be used on the IRIS
-          intersection method).
-        - iris.Constraint if no defined modulus
-        :param data:
-        :return:
+        Return the lower and upper edges of each of the cells which should be compared with the limits: these are the
+        bounds - if there are any - for coordinates with a defined modulus, otherwise just the points.
         """
-        class Contains(object):
-            """
-            Callable object for checking if a value is within a preset range
-            """
-            def __init__(self, lower, upper):
-                self.lower = lower
-                self.upper = upper
-
-            def __call__(self, x):
-                return self.lower <= x.point <= self.upper
-
-        intersection_constraint = {}
-        extract_constraint = iris.Constraint()
-        for coord, limits in self._limits.items():
-            if data.coord(coord).units.modulus is not None:
-                # These coordinates can be safely used with iris.cube.Cube.intersection()
-                intersection_constraint[coord] = (limits.start, limits.stop)
-            else:
-                # These coordinates cannot be used with iris.cube.Cube.intersection(), will use iris.cube.Cube.extract()
-                extract_constraint = extract_constraint & iris.Constraint(**{coord: Contains(limits.start, limits.stop)})
-        return extract_constraint, intersection_constraint
+        if coord.units.modulus is not None and coord.has_bounds():
+            return coord.bounds.min(axis=-1), coord.bounds.max(axis=-1)
+        return coord.points, coord.points
+
+    def _extract(self, data, coord, limits):
+        """
+        Extract the cells which are within the (inclusive) limits, wrapping those which aren't if the coordinate has a
+        defined modulus
+        :param data: data to be subsetted
+        :param coord: the coordinate of that data which is being limited
+        :param slice limits: the limits, either numbers in the units of the coordinate or datetimes
+        :return: the data within the limits or None if all data excluded.
+        """
+        dims = data.coord_dims(coord)
+        if len(dims) > 1:
+            raise ValueError("Unable to subset over the multidimensional coordinate {}".format(coord.name()))
+        start, stop = _limits_in_units_of(coord, limits)
+        lower, upper = self._get_extent(coord)
+
+        within_limits = (upper >= start) & (lower <= stop)
+        offsets = np.zeros(coord.shape)
+        modulus = coord.units.modulus
+        if modulus is not None:
+            # Wrap any other cells to be the first one above the start of the limits
+            offsets = np.where(within_limits, 0., np.ceil((start - upper) / modulus) * modulus)
+            within_limits |= lower + offsets <= stop
+        indices = np.flatnonzero(within_limits)
+        if len(indices) == 0:
+            return None
+        if not np.any(offsets[indices]):
+            return data[_get_key(dims, indices)] if len(indices) < len(offsets) else data
+        if stop - start > modulus * (1 + 1e-9):
+            raise ValueError("The requested range of {} is greater than {}".format(coord.name(), modulus))
+
+        offsets = offsets.astype(coord.dtype)
+        is_dim_coord = coord in data.dim_coords
+        if is_dim_coord:
+            # Keep the points in order
+            indices = indices[np.argsort((coord.points + offsets)[indices])]
+            if len(coord.points) > 1 and coord.points[0] > coord.points[-1]:
+                indices = indices[::-1]
+        subset = data[_get_key(dims, indices)] if dims else data.copy()
+        points = (coord.points + offsets)[indices]
+        bounds = (coord.bounds + offsets[:, np.newaxis])[indices] if coord.has_bounds() else None
+        new_coord = coord.copy(points, bounds)
+        if hasattr(new_coord, 'circular') and len(indices) < len(offsets):
+            new_coord.circular = False
+        subset.remove_coord(coord.name())
+        if is_dim_coord:
+            subset.add_dim_coord(new_coord, dims)
+        else:
+            subset.add_aux_coord(new_coord, dims)
+        return subset
+
+
+def _get_key(dims, indices):
+    """
+    Return the key for getting only the given indices of the (single) dimension in dims, if there is one.
+    """
+    if len(dims) == 0:
+        return ()
+    if indices[-1] - indices[0] + 1 == len(indices) and np.all(np.diff(indices) == 1):
+        return (slice(None),) * dims[0] + (slice(indices[0], indices[-1] + 1),)
+    return (slice(None),) * dims[0] + (tuple(indices),)
 
 
 class UngriddedSubsetConstraint(SubsetConstraint):
@@ -190,8 +233,6 @@ class UngriddedSubsetConstraint(SubsetConstraint):
         :param data: data to be subsetted
         :return: subsetted data
         """
-        import numpy as np
-        from datetime import datetime
         from cis.data_io.ungridded_data import UngriddedDataList
 
         if isinstance(data, list):
@@ -214,9 +255,7 @@ class UngriddedSubsetConstraint(SubsetConstraint):
             combined_mask = np.ones(shape, dtype=bool)
             for coord, limit in self._limits.items():
                 points = _data.coord(coord).data
-                # Convert the limits to the units of the points if they are datetimes
-                start, stop = [_data.coord(coord).units.date2num(l) if isinstance(l, datetime) else l
-                               for l in (limit.start, limit.stop)]
+                start, stop = _limits_in_units_of(_data.coord(coord), limit)
                 # Select any points which are <= to the stop limit AND >= to the start limit
                 mask = (np.less_equal(points, stop) & np.greater_equal(points, start))
                 combined_mask &= mask
@@ -226,7 +265,7 @@ class UngriddedSubsetConstraint(SubsetConstraint):
 
         if self._shape is not None:
             if self._shape_indices is None:
-                self._shape_indices = np.array(_get_ungridded_subset_region_indices(_data, self._shape), dtype=int)
+                self._shape_indices = _get_ungridded_subset_region_indices(_data, self._shape)
             _data = _data[np.unravel_index(self._shape_indices, _data.shape)]
 
         if _data.size == 0:
@@ -257,6 +296,14 @@ class UngriddedSubsetConstraint(SubsetConstraint):
         return data
 
 
+def _limits_in_units_of(coord, limits):
+    """
+    Return the start and stop of the limits as numbers in the units of the coordinate, the limits may be datetimes.
+    """
+    return [coord.units.date2num(limit) if hasattr(limit, 'timetuple') else limit
+            for limit in (limits.start, limits.stop)]
+
+
 def _shift_longitudes_into_range(lons, start, stop):
     """
     Shift any longitudes which aren't within the given range by the multiple of 360 degrees which brings them to within
@@ -274,7 +321,7 @@ def _get_indices_for_lat_lon_points(lats, lons, region):
 
     # Performance in this loop might be an issue, but I think it's essentially how GeoPandas does it. If I want to
     #  improve it I might need to look at using something like rtree.
-    return [i for i, p in enumerate(points.geoms) if region.contains(p)]
+    return np.array([i for i, p in enumerate(points.geoms) if region.contains(p)], dtype=int)
 
 
 def _get_ungridded_subset_region_indices(ungridded_data, region):
@@ -284,6 +331,17 @@ def _get_ungridded_subset_region_indices(ungridded_data, region):
 
 
 def _get_gridded_subset_region_indices(gridded_data, region):
-    # Using X and Y is a bit more general than lat and lon - the shapefiles needn't actually represent lat/lon
-    x, y = np.meshgrid(gridded_data.coord(axis='X').points, gridded_data.coord(axis='Y').points)
-    return _get_indices_for_lat_lon_points(x.flat, y.flat, region)
+    # Each of the points needs expanding to the full shape of the data, whatever the order of its dimensions
+    x, y = [_expand_coord(gridded_data, gridded_data.coord(standard_name=n)) for n in ('longitude', 'latitude')]
+    x = _shift_longitudes_into_range(x, region.bounds[0], region.bounds[2])
+    return _get_indices_for_lat_lon_points(x.flatten(), y.flatten(), region)
+
+
+def _expand_coord(gridded_data, coord):
+    """
+    Return the points of the given coordinate for each of the points of the data
+    """
+    shape = np.ones(gridded_data.ndim, dtype=int)
+    dims = list(gridded_data.coord_dims(coord))
+    shape[dims] = coord.shape if dims else 1
+    return np.broadcast_to(coord.points.reshape(shape), gridded_data.shape)
-- 
2.43.0


From f0b296269510d1bd48a7d89d87982593e571e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 018/125] fix: unpack integer variables that have only a scale
 factor or an offset

---
 cis/data_io/netcdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 859fff1..1fbc0f4 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -312,9 +312,10 @@ def apply_offset_and_scaling(data, add_offset=None, scale_factor=None):
         logging.debug("Applying 'data = data * {scale} + {offset}' transformation to data.".format(scale=scale_factor,
                                                                                                    offset=add_offset))
     elif scale_factor is not None and scale_factor != 1.0:
-        data *= scale_factor
+        # Not in place, as packed integers cannot hold the scaled values
+        data = data * scale_factor
         logging.debug("Applying 'data *= {scale}' transformation to data.".format(scale=scale_factor))
     elif add_offset is not None and add_offset != 0.0:
-        data += add_offset
+        data = data + add_offset
         logging.debug("Applying 'data += {offset}' transformation to data.".format(offset=add_offset))
     return data
-- 
2.43.0


From 0c6e2f7218f9152608ed9b238465e89a058171f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 019/125] fix: do not lose a variable when another of the same
 name is saved

---
 cis/data_io/write_netcdf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index c3a418a..3215781 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -3,6 +3,7 @@ Module for writing data to NetCDF files
 """
 from netCDF4 import Dataset
 import logging
+import numpy as np
 
 types = {'int8': 'i1',
          'int16': "i2",
@@ -94,7 +95,7 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
            otherwise use the variable name
     :return: created netCDF variable
     """
-    from cis.exceptions import InconsistentDimensionsError
+    from cis.exceptions import InconsistentDimensionsError, InvalidVariableError
 
     name = None
     if (data.metadata._name is not None) and (len(data.metadata._name) > 0):
@@ -120,7 +121,14 @@ def __create_variable(nc_file, data, prefer_standard_name=False):
             raise
         return var
     else:
-        return nc_file.variables[name]
+        # Not to be written again if it is the same, as for coordinates which are also asked for as variables
+        var = nc_file.variables[name]
+        existing, new = np.ma.asarray(var[:]), np.ma.asarray(data.data).flatten()
+        if existing.shape != new.shape or not np.array_equal(np.ma.getmaskarray(existing), np.ma.getmaskarray(new)) \
+                or not np.ma.allclose(existing, new, rtol=0, atol=0):
+            raise InvalidVariableError("Unable to write more than one variable called {} to {}"
+                                       .format(name, nc_file.filepath()))
+        return var
 
 
 def write(data_object, filename):
-- 
2.43.0


From 62cd99f66b282b3357c5cb470fa3b2db2d472562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 020/125] fix: do not write packing attributes with unpacked
 data

---
 cis/data_io/write_netcdf.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/write_netcdf.py b/cis/data_io/write_netcdf.py
index 3215781..d01c710 100644
--- a/cis/data_io/write_netcdf.py
+++ b/cis/data_io/write_netcdf.py
@@ -19,14 +19,25 @@ types = {'int8': 'i1',
 index_name = 'obs'
 
 
+# Attributes which describe values as they were packed in the file that the data was read from
+packing_attributes = ('scale_factor', 'add_offset')
+packed_value_attributes = ('missing_value', '_FillValue', 'valid_min', 'valid_max', 'valid_range')
+
+
+def __is_unpacked(data):
+    return any(name in data.metadata.misc for name in packing_attributes)
+
+
 def __add_metadata(var, data):
+    # The data is not packed again when it is written
+    excluded = packing_attributes + packed_value_attributes if __is_unpacked(data) else ()
     if data.standard_name:
         var.standard_name = data.standard_name
     if data.units:
         var.units = str(data.units)
     if data.long_name:
         var.long_name = data.long_name
-    if data.metadata.missing_value:
+    if data.metadata.missing_value and 'missing_value' not in excluded:
         var.missing_value = data.metadata.missing_value
     if hasattr(data.units, 'calendar') and data.units.calendar:
         var.calendar = data.units.calendar
@@ -35,7 +46,7 @@ def __add_metadata(var, data):
     for name, value in data.attributes.items():
         setattr(var, name, value)
     for name, value in data.metadata.misc.items():
-        if name not in var.ncattrs():
+        if name not in var.ncattrs() and name not in excluded:
             try:
                 setattr(var, name, value)
             except ValueError:
@@ -45,7 +56,7 @@ def __add_metadata(var, data):
 
 
 def __get_missing_value(coord):
-    f = coord.metadata.missing_value
+    f = coord.metadata.missing_value if not __is_unpacked(coord) else None
     if not f and f != 0:
         f = None
     return f
-- 
2.43.0


From 8b15361a16cb54be17c6c2d58b09bc663c89bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 021/125] fix: read gridded data whose time is an auxiliary
 coordinate

---
 cis/time_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/time_util.py b/cis/time_util.py
index 24fe9d7..6664b8f 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -215,6 +215,7 @@ def convert_cube_time_coord_to_standard_time(cube):
     t_coord = cube.coord(standard_name='time')
     data_dim = cube.coord_dims(t_coord)
     if len(data_dim) > 0:
+        is_dim_coord = len(cube.coords(standard_name='time', dim_coords=True)) > 0
         # And remove it from the cube
         cube.remove_coord(t_coord)
 
@@ -233,7 +234,10 @@ def convert_cube_time_coord_to_standard_time(cube):
         new_time_coord.units = cis_standard_time_unit
 
         # And add the new coordinate back into the cube
-        cube.add_dim_coord(new_time_coord, data_dim)
+        if is_dim_coord:
+            cube.add_dim_coord(new_time_coord, data_dim)
+        else:
+            cube.add_aux_coord(new_time_coord, data_dim)
 
     return cube
 
-- 
2.43.0


From 4e76cc53e9e48f3cd87ad7362994c13e41844c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 022/125] fix: expand file wildcards to files only and variable
 wildcards to each variable once, sorted

---
 cis/data_io/data_reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index ac65da7..729a4e8 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -31,7 +31,8 @@ def expand_filelist(filelist):
             filelist = glob(element)
             filelist.sort()
             for filename in filelist:
-                file_set.add(filename)
+                if not os.path.isdir(filename):
+                    file_set.add(filename)
         elif os.path.isdir(element):
             filelist = os.listdir(element)
             filelist.sort()
@@ -115,12 +116,13 @@ class DataReader(object):
             if is_wildcard:
                 if file_variables is None:
                     file_variables = self._get_vars_func(filenames, product)
-                matches = fnmatch.filter(file_variables, variable)
+                # Sorted, as the variables of several files come as an (unordered) set
+                matches = sorted(fnmatch.filter(file_variables, variable))
                 if len(matches) == 0:
                     logging.warning("No variables matching wildcard '%s' found in file." % variable)
                 else:
                     logging.info("Wildcard '%s' found matching variables: %s" % (variable, matches))
-                valid_vars.extend(matches)
+                valid_vars.extend([match for match in matches if match not in valid_vars])
             else:
                 valid_vars.append(variable)
         if len(valid_vars) == 0:
-- 
2.43.0


From ba8c7444a8f8e6fdda1da30418ab84351307259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 023/125] fix: read ungridded data of which every time is
 missing

---
 cis/data_io/ungridded_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 3b9e201..c904104 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -402,8 +402,8 @@ class LazyData(object):
                              cis_standard_time_unit.num2date(self.data.max()))
                 else:
                     range = (self.data.min(), self.data.max())
-            except ValueError as e:
-                # If we can't set a range for some reason then just leave it blank
+            except (ValueError, TypeError) as e:
+                # If we can't set a range for some reason (e.g. all times are missing) then just leave it blank
                 range = ()
 
         self.metadata.range = range
-- 
2.43.0


From 8132b7967d05d78c2892b2edceb8e3905cc30fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 024/125] fix: read Aeronet files with current pandas, and
 never mistake dates for times

---
 cis/data_io/aeronet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/aeronet.py b/cis/data_io/aeronet.py
index 6fccd5c..e59d683 100644
--- a/cis/data_io/aeronet.py
+++ b/cis/data_io/aeronet.py
@@ -172,8 +172,7 @@ def load_aeronet(filename, variables=None):
     try:
         rawd = read_csv(filename, sep=",", header=AERONET_HEADER_LENGTH[version]-1, names=ordered_vars,
                         index_col=False, usecols=cols, na_values=AERONET_MISSING_VALUE[version], dtype=dtypes,
-                        parse_dates={"datetime":["date", "time"]}, infer_datetime_format=True, dayfirst=True,
-                        error_bad_lines=False, warn_bad_lines=True, #low_memory="All_Sites_Times_All_Points" in filename
+                        on_bad_lines='warn', #low_memory="All_Sites_Times_All_Points" in filename
         )
     except ValueError:
         raise InvalidVariableError("{} not available in {}".format(variables, filename))
@@ -183,8 +182,10 @@ def load_aeronet(filename, variables=None):
         return {"datetime":[], "latitude":[], "longitude":[], "altitude":[]}
 
     # Convert pandas Timestamps into CIS standard numbers
+    # (with an explicit format, as dates separated by colons can be mistaken for times)
+    datetimes = rawd.pop("date").str.replace("[-/]", ":", regex=True) + " " + rawd.pop("time")
     rawd["datetime"] = [cis_standard_time_unit.date2num(timestamp.to_pydatetime())
-                        for timestamp in to_datetime(rawd["datetime"], format='%d:%m:%Y %H:%M:%S')]
+                        for timestamp in to_datetime(datetimes, format='%d:%m:%Y %H:%M:%S')]
 
     # Add position metadata that isn't listed in every line for some formats
     if version.startswith("MAN"):
-- 
2.43.0


From 703d68642553a078ecce6ec1b5e684bde8f97077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 025/125] fix: list both SD and VD variables of HDF files

---
 cis/data_io/hdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/hdf.py b/cis/data_io/hdf.py
index 874d4aa..69633a5 100644
--- a/cis/data_io/hdf.py
+++ b/cis/data_io/hdf.py
@@ -16,9 +16,9 @@ def get_hdf4_file_variables(filename, data_type=None):
 
     if data_type is None or data_type.lower() == "sd":
         SD_vars = hdf_sd.get_hdf_SD_file_variables(filename)
-    elif data_type is None or data_type.lower() == "vd":
+    if data_type is None or data_type.lower() == "vd":
         VD_vars = hdf_vd.get_hdf_VD_file_variables(filename)
-    else:
+    if data_type is not None and data_type.lower() not in ("sd", "vd"):
         raise ValueError("Invalid data-type: %s, HDF variables must be VD or SD only" % data_type)
 
     return SD_vars, VD_vars
-- 
2.43.0


From b69576b7cd5ac885b57de696221e5b6082746608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 026/125] fix: read each field of a multi-band MODIS L2
 variable, and 1 km variables

---
 cis/data_io/products/MODIS.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cis/data_io/products/MODIS.py b/cis/data_io/products/MODIS.py
index 29d8459..4543ef1 100644
--- a/cis/data_io/products/MODIS.py
+++ b/cis/data_io/products/MODIS.py
@@ -246,11 +246,11 @@ class MODIS_L2(AProduct):
         output = np.zeros((factor * data.shape[0], factor * data.shape[1])) * np.nan
         output[int(factor / 2)::factor, int(factor / 2)::factor] = data
         for i in range(1, factor + 1):
-            output[(int(factor / 2) + i):(-1 * factor / 2 + 1):factor, :] = i * (
+            output[(int(factor / 2) + i):(-1 * factor // 2 + 1):factor, :] = i * (
                 (output[int(factor / 2) + factor::factor, :] - output[int(factor / 2):(-1 * factor):factor, :]) /
                 float(factor)) + output[int(factor / 2):(-1 * factor):factor, :]
         for i in range(1, factor + 1):
-            output[:, (int(factor / 2) + i):(-1 * factor / 2 + 1):factor] = i * (
+            output[:, (int(factor / 2) + i):(-1 * factor // 2 + 1):factor] = i * (
                 (output[:, int(factor / 2) + factor::factor] - output[:, int(factor / 2):(-1 * factor):factor]) /
                 float(factor)) + output[:, int(factor / 2):(-1 * factor):factor]
         return output
@@ -297,6 +297,7 @@ class MODIS_L2(AProduct):
 
     def create_data_object(self, filenames, variable):
         from itertools import product
+        from cis.data_io.hdf_sd import HDF_SDS
 
         logging.debug("Creating data object for variable " + variable)
 
@@ -325,10 +326,10 @@ class MODIS_L2(AProduct):
             # Iterate over all but the last two dimensions
             ranges = [range(n) for n in dim_len[:-2]]
             for indices in product(*ranges):
-                for manager in var:
-                    manager._start = list(indices) + [0, 0]
-                    manager._count = [1] * len(indices) + manager.info()[2][-2:]
-                result.append(UngriddedData(var, metadata, coords.copy(), _get_MODIS_SDS_data))
+                # Each field needs its own (lazy) managers, as they aren't read until later
+                managers = [HDF_SDS(manager._filename, manager._variable, start=list(indices) + [0, 0],
+                                    count=[1] * len(indices) + manager.info()[2][-2:]) for manager in var]
+                result.append(UngriddedData(managers, metadata, coords.copy(), _get_MODIS_SDS_data))
             return result
 
     def get_file_format(self, filenames):
-- 
2.43.0


From 9fe483520df2a295d78501cf40312aeb821fc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 027/125] fix: do not wrap valid_min and valid_max into the
 type of the data

---
 cis/data_io/netcdf.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/netcdf.py b/cis/data_io/netcdf.py
index 1fbc0f4..eaf72c0 100644
--- a/cis/data_io/netcdf.py
+++ b/cis/data_io/netcdf.py
@@ -267,7 +267,7 @@ def get_data(var):
 
     if hasattr(var, 'valid_max'):
         try:
-            v_max = np.array(var.valid_max, var.dtype)
+            v_max = _parse_limit(var.valid_max, var.dtype)
         except ValueError:
             logging.warning("Unable to parse valid_max metadata for {}. Not applying mask.".format(var._name))
         else:
@@ -276,7 +276,7 @@ def get_data(var):
 
     if hasattr(var, 'valid_min'):
         try:
-            v_min = np.array(var.valid_min, var.dtype)
+            v_min = _parse_limit(var.valid_min, var.dtype)
         except ValueError:
             logging.warning("Unable to parse valid_min metadata for {}. Not applying mask.".format(var._name))
         else:
@@ -296,6 +296,21 @@ def get_data(var):
     return data
 
 
+def _parse_limit(limit, dtype):
+    """
+    Parse a valid_min or valid_max attribute. Numbers are left as they are, as the type of the data may not be able to
+    hold them.
+
+    :param limit: The attribute, a number or a string
+    :param dtype: The type of the data, which strings are converted to
+    :return ndarray: The limit
+    :raises ValueError: If the limit is not a number
+    """
+    import numpy as np
+    limit = np.asarray(limit)
+    return limit if np.issubdtype(limit.dtype, np.number) else limit.astype(dtype)
+
+
 def apply_offset_and_scaling(data, add_offset=None, scale_factor=None):
     """
     Apply a standard offset and scaling to the data. This is deliberately very similar to the python-NetCDF4
-- 
2.43.0


From ebe2b57037e69c6699ccdaeb4a0c252e32d8d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 028/125] fix: use the altitude of each GASSP station, also if
 the first has none

---
 cis/data_io/products/NCAR_NetCDF_RAF.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cis/data_io/products/NCAR_NetCDF_RAF.py b/cis/data_io/products/NCAR_NetCDF_RAF.py
index 3d9c5b0..a9f82ff 100644
--- a/cis/data_io/products/NCAR_NetCDF_RAF.py
+++ b/cis/data_io/products/NCAR_NetCDF_RAF.py
@@ -197,11 +197,10 @@ class NCAR_NetCDF_RAF_variable_name_selector(object):
                                   for attr in self._attributes]
         self.station = True
 
-        if self.STATION_ALTITUDE_NAME.lower() in self._attributes[0]:
-            self.altitude = [self._parse_station_altitude(attr[self.STATION_ALTITUDE_NAME.lower()])
-                             for attr in self._attributes]
-        else:
-            self.altitude = [self.DEFAULT_ALTITUDE for attr in self._attributes]
+        # Some of the files may not have an altitude
+        self.altitude = [self._parse_station_altitude(attr.get(self.STATION_ALTITUDE_NAME.lower(),
+                                                               self.DEFAULT_ALTITUDE))
+                         for attr in self._attributes]
 
     def _check_has_variables_and_attributes(self):
         """
-- 
2.43.0


From 424ec329eea34e4b0f5c45ae13230008aa992738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 029/125] fix: convert times in plain units (e.g. 'days') using
 the time stamp

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index c00b268..8c55a84 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -81,7 +81,7 @@ class Coord(LazyData):
             convert_time_using_time_stamp_info_to_std_time, convert_datetime_to_std_time
         from cf_units import Unit
 
-        if isinstance(self.units, Unit):
+        if isinstance(self.units, Unit) and (self.units.is_time_reference() or time_stamp_info is None):
             self._data = convert_time_since_to_std_time(self.data, self.units)
         elif str(self.units).lower().startswith('datetime'):
             self._data = convert_datetime_to_std_time(self.data)
-- 
2.43.0


From 9eae512eb742cf96a6e3c470c781a4aba247ca9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 030/125] fix: read ASCII files with a single line

---
 cis/data_io/products/products.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/products/products.py b/cis/data_io/products/products.py
index 0f7ad5f..596ccaa 100644
--- a/cis/data_io/products/products.py
+++ b/cis/data_io/products/products.py
@@ -152,6 +152,7 @@ class ASCII_Hyperpoints(AProduct):
     def create_coords(self, filenames, variable=None):
         from cis.data_io.ungridded_data import Metadata
         from numpy import genfromtxt, NaN
+        from numpy.ma import atleast_1d
         from cis.exceptions import InvalidVariableError
         from cis.time_util import convert_datetime_to_std_time
         import dateutil.parser as du
@@ -160,10 +161,12 @@ class ASCII_Hyperpoints(AProduct):
 
         for filename in filenames:
             try:
-                array_list.append(genfromtxt(filename, dtype="f8,f8,f8,O,f8",
-                                             names=['latitude', 'longitude', 'altitude', 'time', 'value'],
-                                             delimiter=',', missing_values='', usemask=True, invalid_raise=True,
-                                             converters={"time": du.parse}))
+                # (a file with a single line would otherwise be zero-dimensional)
+                array_list.append(atleast_1d(
+                    genfromtxt(filename, dtype="f8,f8,f8,O,f8",
+                               names=['latitude', 'longitude', 'altitude', 'time', 'value'],
+                               delimiter=',', missing_values='', usemask=True, invalid_raise=True,
+                               converters={"time": du.parse})))
             except:
                 raise IOError('Unable to read file ' + filename)
 
-- 
2.43.0


From 3374aa62ca23c5084f7f144e48932f3e38615361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 031/125] fix: do not truncate the time bounds of merged MODIS
 L3 files to whole days

---
 cis/parse_datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index b108781..3de9ed2 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -5,7 +5,8 @@ import argparse
 
 def parse_datetimestr_to_std_time(s):
     import dateutil.parser as du
-    return cis_standard_time_unit.date2num(du.parse(s))
+    # Always a float (whole days would be integers otherwise), as files are merged together using their times
+    return float(cis_standard_time_unit.date2num(du.parse(s)))
 
 
 def _parse_datetime(s):
-- 
2.43.0


From 618640f6e27ed2ce21716f128c06ae97ef187e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 032/125] fix: read the reference of time units with an ISO
 8601 'T' separator

---
 cis/data_io/ungridded_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index c904104..bc0298c 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -2,6 +2,7 @@
     Module for the UngriddedData class
 """
 import logging
+import re
 from time import gmtime, strftime
 import numpy
 
@@ -137,6 +138,8 @@ class Metadata(object):
                     if 'since' in units.lower():
                         # Often this time since epoch units are weirdly capitalised, or include extra punctuation
                         units = units.lower().replace("since:", "since").replace(",", "")
+                        # The ISO 8601 separator between a date and a time has to be a capital T
+                        units = re.sub(r'(\d)t(\d)', r'\1T\2', units)
                     else:
                         # Replace number with 1 (e.g. #/cm3 == cm-3)
                         units = units.replace('#', '1')
-- 
2.43.0


From 75710cf06b1a3f1461901bf8ee9d85dafa93f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 033/125] fix: convert units into new data, also for whole
 numbers and times

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index bc0298c..d973286 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -425,7 +425,7 @@ class LazyData(object):
         if not isinstance(self.units, Unit):
             # If our units aren't cf_units then they can't be...
             raise ValueError("Unable to convert non-standard LazyData units: {}".format(self.units))
-        self.units.convert(self.data, new_units, inplace=True)
+        self.data = self.units.convert(self.data, new_units)
         self.units = new_units
 
 
-- 
2.43.0


From 2b535d8f9a5e7dd5670c30c105cb10538732f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 034/125] fix: forget the flattened view of coordinates whose
 times are converted

---
 cis/data_io/Coord.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 8c55a84..172cc56 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -61,12 +61,12 @@ class Coord(LazyData):
         from cis.time_util import convert_julian_date_to_std_time, cis_standard_time_unit
         # if not self.units.startswith("Julian Date"):
         #     raise ValueError("Time units must be Julian Date for conversion to an Object")
-        self._data = convert_julian_date_to_std_time(self.data)
+        self.data = convert_julian_date_to_std_time(self.data)
         self.units = cis_standard_time_unit
 
     def convert_TAI_time_to_std_time(self, ref):
         from cis.time_util import convert_sec_since_to_std_time, cis_standard_time_unit
-        self._data = convert_sec_since_to_std_time(self.data, ref)
+        self.data = convert_sec_since_to_std_time(self.data, ref)
         self.units = cis_standard_time_unit
 
     def convert_to_std_time(self, time_stamp_info=None):
@@ -82,19 +82,19 @@ class Coord(LazyData):
         from cf_units import Unit
 
         if isinstance(self.units, Unit) and (self.units.is_time_reference() or time_stamp_info is None):
-            self._data = convert_time_since_to_std_time(self.data, self.units)
+            self.data = convert_time_since_to_std_time(self.data, self.units)
         elif str(self.units).lower().startswith('datetime'):
-            self._data = convert_datetime_to_std_time(self.data)
+            self.data = convert_datetime_to_std_time(self.data)
         else:
             if time_stamp_info is None:
                 raise ValueError("File must have time stamp info if converting without 'since' in units definition")
-            self._data = convert_time_using_time_stamp_info_to_std_time(self.data, self.units, time_stamp_info)
+            self.data = convert_time_using_time_stamp_info_to_std_time(self.data, self.units, time_stamp_info)
 
         self.units = cis_standard_time_unit
 
     def convert_datetime_to_standard_time(self):
         from cis.time_util import convert_datetime_to_std_time, cis_standard_time_unit
-        self._data = convert_datetime_to_std_time(self.data)
+        self.data = convert_datetime_to_std_time(self.data)
         self.units = cis_standard_time_unit
 
     def convert_standard_time_to_datetime(self):
-- 
2.43.0


From ed53e584b35fa582195d5fba7537e9b9b2748cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 035/125] fix: use the time of day of the reference when
 converting seconds

---
 cis/time_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/time_util.py b/cis/time_util.py
index 6664b8f..300bb99 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -181,7 +181,7 @@ def convert_sec_since_to_std_time(seconds, ref):
     kwargs = {} if isinstance(seconds, np.ma.MaskedArray) else {'copy': False}
     days_since = seconds.astype(float, **kwargs) / (3600*24.0)
     offset = ref - cis_standard_time_unit.num2date(0)
-    return offset.days + days_since
+    return offset.total_seconds() / (3600*24.0) + days_since
 
 
 def convert_std_time_to_datetime(std_time):
-- 
2.43.0


From 61b357cdbc86b837184fc1b222d5c79384f06e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 036/125] fix: change the year of data including leap days

---
 cis/time_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/time_util.py b/cis/time_util.py
index 300bb99..690ad68 100644
--- a/cis/time_util.py
+++ b/cis/time_util.py
@@ -277,6 +277,10 @@ def change_year_of_ungridded_data(data, new_year):
     np_set_year = np.vectorize(set_year)
 
     updated_dt = np_set_year(dt, new_year)
+    # There is no date in the new year for a leap day (unless it is a leap year itself), so those become missing
+    no_date = np.equal(updated_dt, None)
+    if no_date.any():
+        updated_dt = np.ma.masked_array(np.where(no_date, dt, updated_dt), mask=no_date)
     new_dates = convert_datetime_to_std_time(updated_dt)
 
     data.coord('time').data = new_dates
-- 
2.43.0


From 37649e7770b913ef7a43d040e406013018ee761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 037/125] fix: treat incomplete dates in limits as documented

---
 cis/parse.py          |  6 +++---
 cis/parse_datetime.py | 32 +++++++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 94621a1..72d6eec 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -471,7 +471,7 @@ def get_aggregate_grid(aggregategrid, parser):
             dim_name = match.group('dim')
 
             start_parsed = parse_as_number_or_datetime(match.group('start'))
-            end_parsed = parse_as_number_or_datetime(match.group('end'))
+            end_parsed = parse_as_number_or_datetime(match.group('end'), latest=True)
             delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
 
             if dim_name.lower() == 'x':
@@ -542,7 +542,7 @@ def get_subset_limits(subsetlimits, parser):
                     limits = parse_partial_datetime(limit1, 'subset range date/time', parser)
                 else:
                     limits = [parse_datetime(limit1, 'subset range start date/time', parser),
-                              parse_datetime(limit2, 'subset range end date/time', parser)]
+                              parse_datetime(limit2, 'subset range end date/time', parser, latest=True)]
             elif dim_name.lower() in ['x', 'y', 'z']:
                 limits = [parse_float(limit1, 'subset range start coordinate', parser),
                           parse_float(limit2, 'subset range start coordinate', parser)]
@@ -554,7 +554,7 @@ def get_subset_limits(subsetlimits, parser):
                         parser.error("Longitude limits should not be more than 360 degrees apart "
                                      "(i.e. for x[A,B] B-A <= 360)")
             else:
-                limits = [parse_as_number_or_datetime(limit1), parse_as_number_or_datetime(limit2)]
+                limits = [parse_as_number_or_datetime(limit1), parse_as_number_or_datetime(limit2, latest=True)]
             limit_dict[dim_name] = limits
     return limit_dict
 
diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index 3de9ed2..08d82b1 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -9,14 +9,30 @@ def parse_datetimestr_to_std_time(s):
     return float(cis_standard_time_unit.date2num(du.parse(s)))
 
 
-def _parse_datetime(s):
+def _parse_datetime(s, latest=False):
     """Parse a date/time string.
 
     The string should be in an ISO 8601 format except that the date and time
-    parts may be separated by a space or colon instead of T.
+    parts may be separated by a space or colon instead of T. Any trailing components may be omitted.
+
+    :param s: String to parse
+    :param latest: Return the latest, rather than the earliest, date/time compatible with the components given?
+    :return: datetime value
+    :raise ValueError: if the string cannot be parsed as a date/time
     """
+    from datetime import datetime
     import dateutil.parser as du
-    return du.parse(s)
+    try:
+        partial = _parse_partial_datetime(s)
+    except ValueError:
+        if re.match(r'[0-9T: -]*$', s):
+            raise
+        # Other formats (or fractions of a second) are only unambiguous if the whole of the date is given
+        dt = du.parse(s, default=datetime(2000, 1, 1))
+        if dt != du.parse(s, default=datetime(2004, 2, 2)):
+            raise ValueError("'{}' is not a complete date".format(s))
+        return dt
+    return partial.max() if latest else partial.min()
 
 
 def _parse_partial_datetime(dt_string):
@@ -71,7 +87,7 @@ def parse_partial_datetime(dt_string, name, parser):
     return dt
 
 
-def parse_datetime(dt_string, name, parser):
+def parse_datetime(dt_string, name, parser, latest=False):
     """Parse a date/time string from the command line, reporting parse errors.
 
     The string should be in an ISO 8601 format except that the date and time
@@ -79,12 +95,13 @@ def parse_datetime(dt_string, name, parser):
     :param dt_string: String to parse
     :param name:      A description of the argument used for error messages
     :param parser:    The parser used to report errors
+    :param latest:    Return the latest (rather than the earliest) date/time compatible with the components given?
     :return: datetime value
     """
     if dt_string == 'None' or dt_string is None:
         return None
     try:
-        dt = _parse_datetime(dt_string)
+        dt = _parse_datetime(dt_string, latest)
     except ValueError:
         parser.error("'" + dt_string + "' is not a valid " + name)
         dt = None
@@ -174,11 +191,12 @@ def parse_datetimestr_delta_to_float_days(string):
     return _datetime_delta_to_float_days(date_delta)
 
 
-def parse_as_number_or_datetime(string):
+def parse_as_number_or_datetime(string, latest=False):
     """
     Parse a string as a number from the command line, or if that fails, as a datetime
 
     :param in_string: String to parse
+    :param latest: Return the latest (rather than the earliest) date/time compatible with the components given?
     :return: int, float or DateTime
     """
     if string == 'None' or string is None:
@@ -190,7 +208,7 @@ def parse_as_number_or_datetime(string):
             ret = float(string)
         except ValueError:
             try:
-                ret = _parse_datetime(string)
+                ret = _parse_datetime(string, latest)
             except ValueError:
                 raise argparse.ArgumentTypeError("'{}' is not a valid value.".format(string))
     return ret
-- 
2.43.0


From 25aa27f17185c7fc5de565bd160208738b1108f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 038/125] fix: accept years as the limits of a time grid

---
 cis/parse.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 72d6eec..11b897d 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -443,7 +443,7 @@ def get_aggregate_grid(aggregategrid, parser):
     :param parser:        The parser used to report errors
     :return: The parsed datagroups as a list of dictionaries
     """
-    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta
+    from cis.parse_datetime import parse_as_number_or_datetime, parse_as_number_or_datetime_delta, parse_datetime
 
     # Split into the limits for each dimension.
     split_input = split_outside_brackets(aggregategrid)
@@ -470,8 +470,14 @@ def get_aggregate_grid(aggregategrid, parser):
         else:
             dim_name = match.group('dim')
 
-            start_parsed = parse_as_number_or_datetime(match.group('start'))
-            end_parsed = parse_as_number_or_datetime(match.group('end'), latest=True)
+            limits = []
+            for group, latest in (('start', False), ('end', True)):
+                if dim_name.lower() in ['t', 'time'] and re.match(r'[0-9]{4}$', match.group(group)):
+                    # A year on its own is a date/time rather than a number
+                    limits.append(parse_datetime(match.group(group), 'aggregation grid date/time', parser, latest))
+                else:
+                    limits.append(parse_as_number_or_datetime(match.group(group), latest))
+            start_parsed, end_parsed = limits
             delta_parsed = parse_as_number_or_datetime_delta(match.group('delta'))
 
             if dim_name.lower() == 'x':
-- 
2.43.0


From 798b31807ee6e2dd772bc1bbf28f215134853a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 039/125] fix: reject malformed durations and add up all of
 their components

---
 cis/parse_datetime.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index 08d82b1..cbf9b9d 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -136,6 +136,10 @@ def _parse_datetime_delta(dt_string):
     date_tokens = re.findall('[0-9]*[A-Z]', date_string)
     time_tokens = re.findall('[0-9]*[A-Z]', time_string)
 
+    if len(date_tokens + time_tokens) == 0 or ''.join(date_tokens) != date_string or \
+            ''.join(time_tokens) != time_string:
+        raise ValueError("Date/Time step must be in ISO 8601 format, for example P2M3DT4H5M6S")
+
     years = 0
     months = 0
     days = 0
@@ -146,22 +150,22 @@ def _parse_datetime_delta(dt_string):
     for token in date_tokens:
         val = int(token[:-1])
         if token[-1:] == "Y":
-            years = val
+            years += val
         elif token[-1:] == "M":
-            months = val
+            months += val
         elif token[-1:] == "D":
-            days = val
+            days += val
         else:
             raise ValueError("Date/Time step must be in ISO 8601 format, for example PY2M3DT4H5M6S")
 
     for token in time_tokens:
         val = int(token[:-1])
         if token[-1:] == "H":
-            hours = val
+            hours += val
         elif token[-1:] == "M":
-            minutes = val
+            minutes += val
         elif token[-1:] == "S":
-            seconds = val
+            seconds += val
         else:
             raise ValueError("Date/Time step must be in ISO 8601 format, for example PY2M3DT4H5M6S")
 
-- 
2.43.0


From e8143839cd7279a8e9c8ec89c91f5a9d076baf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 040/125] fix: refuse dates which are not in the documented
 format

---
 cis/parse_datetime.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/cis/parse_datetime.py b/cis/parse_datetime.py
index cbf9b9d..f4125de 100644
--- a/cis/parse_datetime.py
+++ b/cis/parse_datetime.py
@@ -20,18 +20,14 @@ def _parse_datetime(s, latest=False):
     :return: datetime value
     :raise ValueError: if the string cannot be parsed as a date/time
     """
-    from datetime import datetime
-    import dateutil.parser as du
-    try:
-        partial = _parse_partial_datetime(s)
-    except ValueError:
-        if re.match(r'[0-9T: -]*$', s):
-            raise
-        # Other formats (or fractions of a second) are only unambiguous if the whole of the date is given
-        dt = du.parse(s, default=datetime(2000, 1, 1))
-        if dt != du.parse(s, default=datetime(2004, 2, 2)):
-            raise ValueError("'{}' is not a complete date".format(s))
-        return dt
+    from datetime import timedelta
+    # There might be a fraction of a second
+    match = re.match(r'(?P<seconds>.*[0-9])(?P<fraction>\.[0-9]+)$', s)
+    partial = _parse_partial_datetime(match.group('seconds') if match else s)
+    if match:
+        if partial.second is None:
+            raise ValueError("'{}' is not a valid date/time".format(s))
+        return partial.min() + timedelta(seconds=float(match.group('fraction')))
     return partial.max() if latest else partial.min()
 
 
-- 
2.43.0


From 505d8674feda9a7be7bcbcf37e7e74899fd48b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 041/125] fix: evaluate works on copies of the input data

---
 cis/evaluate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/evaluate.py b/cis/evaluate.py
index 56dd0ec..67b9ef2 100644
--- a/cis/evaluate.py
+++ b/cis/evaluate.py
@@ -42,10 +42,11 @@ class Calculator(object):
         for var in data_list:
             assert isinstance(var.alias, six.string_types)
             assert isinstance(var.data, numpy.ndarray)
+            # Take a copy, so that neither the expression nor the result can change the input data
             if not var.is_gridded:
-                safe_locals[var.alias] = var.data_flattened
+                safe_locals[var.alias] = var.data_flattened.copy()
             else:
-                safe_locals[var.alias] = var.data
+                safe_locals[var.alias] = var.data.copy()
         try:
             result = eval(expr, safe_globals, safe_locals)
         except NameError as ex:
-- 
2.43.0


From 92474d7de41d31279243c9d472c561c2df49cc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 042/125] fix: variables can be used within lambdas and
 generators when evaluating

---
 cis/evaluate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cis/evaluate.py b/cis/evaluate.py
index 67b9ef2..b47477f 100644
--- a/cis/evaluate.py
+++ b/cis/evaluate.py
@@ -48,7 +48,10 @@ class Calculator(object):
             else:
                 safe_locals[var.alias] = var.data.copy()
         try:
-            result = eval(expr, safe_globals, safe_locals)
+            # Use a single namespace so that the variables can also be seen inside any lambdas and generators
+            namespace = dict(safe_globals, **safe_locals)
+            namespace['__builtins__'] = safe_globals['__builtins__']
+            result = eval(expr, namespace)
         except NameError as ex:
             raise EvaluationError("A variable or function referenced in your expression could not be found - "
                                   "check your expression. Error is: %s" % ex.args[0])
-- 
2.43.0


From 6f313bf3de9e4238b1f33f7921b2e3544d0db936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 043/125] fix: statistics of integer data do not wrap around

---
 cis/stats.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cis/stats.py b/cis/stats.py
index 176bb27..eaa4e48 100644
--- a/cis/stats.py
+++ b/cis/stats.py
@@ -308,11 +308,18 @@ class StatsAnalyzer(object):
         self._var_name_2 = data2.var_name
         # Flatten the data, so that data of different shapes but same overall size can be compared (e.g. the case where
         # you have collocated some data).
-        self._data1 = data1.data.flatten()
-        self._data2 = data2.data.flatten()
+        self._data1 = self._as_float(data1.data.flatten())
+        self._data2 = self._as_float(data2.data.flatten())
         # Keep a record of whether we have already combined the masks so that we don't unnecessarily repeat it
         self._masks_combined = False
 
+    @staticmethod
+    def _as_float(data):
+        """
+        Convert any integer data to floating point, as the differences might not be representable in the integer type.
+        """
+        return data if data.dtype.kind == 'f' else data.astype(numpy.float64)
+
     def analyze(self):
         """
         Perform a statistical analysis on two data sets.
-- 
2.43.0


From a7a24ca05594d98bfc83e4cfc5b7a338442a02e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 044/125] fix: in-place arithmetic gives the same result as the
 equivalent new object

---
 cis/maths.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/cis/maths.py b/cis/maths.py
index ba51fb2..6a2929f 100644
--- a/cis/maths.py
+++ b/cis/maths.py
@@ -79,8 +79,7 @@ def add(ungridded_data, other, in_place=False):
         An instance of :class:`cis.data_io.ungridded_data.LazyData`.
 
     """
-    op = operator.iadd if in_place else operator.add
-    return _add_subtract_common(op, ungridded_data, other, in_place=in_place)
+    return _add_subtract_common(operator.add, ungridded_data, other, in_place=in_place)
 
 
 def subtract(ungridded_data, other, in_place=False):
@@ -111,8 +110,7 @@ def subtract(ungridded_data, other, in_place=False):
         An instance of :class:`cis.data_io.ungridded_data.LazyData`.
 
     """
-    op = operator.isub if in_place else operator.sub
-    return _add_subtract_common(op, ungridded_data, other, in_place=in_place)
+    return _add_subtract_common(operator.sub, ungridded_data, other, in_place=in_place)
 
 
 def _add_subtract_common(operation_function, ungridded_data, other, in_place=False):
@@ -157,8 +155,7 @@ def multiply(ungridded_data, other, in_place=False):
     _assert_is_ungridded_data(ungridded_data)
     other_unit = getattr(other, 'units', '1')
     new_unit = ungridded_data.units * other_unit
-    op = operator.imul if in_place else operator.mul
-    return _binary_op_common(op, ungridded_data, other, new_unit, in_place=in_place)
+    return _binary_op_common(operator.mul, ungridded_data, other, new_unit, in_place=in_place)
 
 
 def divide(ungridded_data, other, in_place=False):
@@ -180,10 +177,7 @@ def divide(ungridded_data, other, in_place=False):
     _assert_is_ungridded_data(ungridded_data)
     other_unit = getattr(other, 'units', '1')
     new_unit = ungridded_data.units / other_unit
-    try:
-        op = operator.idiv if in_place else operator.div
-    except AttributeError:
-        op = operator.itruediv if in_place else operator.truediv
+    op = getattr(operator, 'div', operator.truediv)
     return _binary_op_common(op, ungridded_data, other, new_unit, in_place=in_place)
 
 
@@ -215,8 +209,8 @@ def exponentiate(ungridded_data, exponent, in_place=False):
     """
     _assert_is_ungridded_data(ungridded_data)
 
-    def power(data, out=None):
-        return np.power(data, exponent, out)
+    def power(data):
+        return np.power(data, exponent)
 
     return _math_op_common(ungridded_data, power, ungridded_data.units ** exponent, in_place=in_place)
 
@@ -379,15 +373,14 @@ def _binary_op_common(operation_function, ungridded_data, other, new_unit, in_pl
 
 def _math_op_common(ungridded_data, operation_function, new_unit, in_place=False):
     _assert_is_ungridded_data(ungridded_data)
+    # Operations on masked arrays can return a view of the mask of the original, so take a copy
+    new_data = operation_function(ungridded_data.data).copy()
     if in_place:
+        # Don't operate on the array itself, as it may not be able to hold the type, or the mask, of the result
         new_ungridded_data = ungridded_data
-        try:
-            operation_function(new_ungridded_data.data, out=new_ungridded_data.data)
-        except TypeError:
-            # Non ufunc function
-            operation_function(new_ungridded_data.data)
+        new_ungridded_data.data = new_data
     else:
-        new_ungridded_data = ungridded_data.copy(data=operation_function(ungridded_data.data))
+        new_ungridded_data = ungridded_data.copy(data=new_data)
     new_ungridded_data.units = new_unit
     new_ungridded_data.add_history('Performed {op} operation'.format(op=operation_function.__name__))
     return new_ungridded_data
-- 
2.43.0


From d17997cfac36461dfcb721e7e21ae218f1251a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 045/125] fix: scalars and arrays on the left hand side of
 ungridded data arithmetic

---
 cis/data_io/ungridded_data.py |  6 ++++-
 cis/maths.py                  | 44 +++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index d973286..ad198ce 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -321,14 +321,18 @@ class LazyData(object):
     def __hash__(self):
         return hash(id(self))
 
-    # Maths operator overloads
+    # Maths operator overloads. Ensure that numpy arrays on the left hand side leave the operation to us
+    __array_priority__ = 1000
     __add__ = cis.maths.add
     __radd__ = __add__
     __sub__= cis.maths.subtract
+    __rsub__ = cis.maths.reflected_subtract
     __mul__ = cis.maths.multiply
     __rmul__ = cis.maths.multiply
     __div__ = cis.maths.divide
     __truediv__ = cis.maths.divide
+    __rdiv__ = cis.maths.reflected_divide
+    __rtruediv__ = cis.maths.reflected_divide
     __pow__ = cis.maths.exponentiate
 
     @data.setter
diff --git a/cis/maths.py b/cis/maths.py
index 6a2929f..14e345e 100644
--- a/cis/maths.py
+++ b/cis/maths.py
@@ -136,6 +136,27 @@ def _add_subtract_common(operation_function, ungridded_data, other, in_place=Fal
     return new_ungridded_data
 
 
+def reflected_subtract(ungridded_data, other):
+    """
+    Calculate the difference between a scalar or array value and a ungridded_data (other - ungridded_data).
+
+    Args:
+
+    * ungridded_data:
+        An instance of :class:`cis.data_io.ungridded_data.LazyData`.
+    * other:
+        A number or :class:`numpy.ndarray`.
+
+    Returns:
+        An instance of :class:`cis.data_io.ungridded_data.LazyData`.
+
+    """
+    def sub(data, value):
+        return operator.sub(value, data)
+
+    return _add_subtract_common(sub, ungridded_data, other)
+
+
 def multiply(ungridded_data, other, in_place=False):
     """
     Calculate the product of a ungridded_data and another ungridded_data or coordinate.
@@ -181,6 +202,29 @@ def divide(ungridded_data, other, in_place=False):
     return _binary_op_common(op, ungridded_data, other, new_unit, in_place=in_place)
 
 
+def reflected_divide(ungridded_data, other):
+    """
+    Calculate the division of a scalar or array value by a ungridded_data (other / ungridded_data).
+
+    Args:
+
+    * ungridded_data:
+        An instance of :class:`cis.data_io.ungridded_data.LazyData`.
+    * other:
+        A number or :class:`numpy.ndarray`.
+
+    Returns:
+        An instance of :class:`cis.data_io.ungridded_data.LazyData`.
+
+    """
+    def div(data, value):
+        return getattr(operator, 'div', operator.truediv)(value, data)
+
+    _assert_is_ungridded_data(ungridded_data)
+    new_unit = getattr(other, 'units', Unit('1')) / ungridded_data.units
+    return _binary_op_common(div, ungridded_data, other, new_unit)
+
+
 def exponentiate(ungridded_data, exponent, in_place=False):
     """
     Returns the result of the given ungridded_data to the power of a scalar.
-- 
2.43.0


From d88c58da2f43871afeadbfce325e22169c7619fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 046/125] fix: collocation leaves the longitudes of the sample
 and the data as they are

---
 cis/collocation/col_implementations.py | 21 +++++++++++++--------
 cis/data_io/ungridded_data.py          |  9 +++++++++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 1b93ec1..57d15bd 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -47,9 +47,9 @@ class GeneralUngriddedCollocator(Collocator):
             return output
 
         # First fix the sample points so that they all fall within the same 360 degree longitude range
-        _fix_longitude_range(points.coords(), points)
+        points = _fix_longitude_range(points.coords(), points)
         # Then fix the data points so that they fall onto the same 360 degree longitude range as the sample points
-        _fix_longitude_range(points.coords(), data)
+        data = _fix_longitude_range(points.coords(), data)
 
         # Convert to dataframes for fancy indexing
         sample_points = points.as_data_frame(time_index=False, name='vals')
@@ -145,6 +145,10 @@ class GriddedUngriddedCollocator(Collocator):
         from cis.collocation.gridded_interpolation import GriddedUngriddedInterpolator
         log_memory_profile("GriddedUngriddedCollocator Initial")
 
+        # Fix the sample points so that they all fall within the same 360 degree longitude range (the interpolator finds
+        # these points in the longitude range of the data)
+        points = _fix_longitude_range(points.coords(), points)
+
         if isinstance(data, list):
             # Indexing and constraints (for SepConstraintKdTree) will only take place on the first iteration,
             # so we really can just call this method recursively if we've got a list of data.
@@ -156,10 +160,6 @@ class GriddedUngriddedCollocator(Collocator):
         if constraint is not None and not isinstance(constraint, DummyConstraint):
             raise ValueError("A constraint cannot be specified for the GriddedUngriddedCollocator")
 
-        # Fix the sample points so that they all fall within the same 360 degree longitude range (the interpolator finds
-        # these points in the longitude range of the data)
-        _fix_longitude_range(points.coords(), points)
-
         log_memory_profile("GriddedUngriddedCollocator after data retrieval")
 
         logging.info("--> Collocating...")
@@ -1169,8 +1169,13 @@ def _find_longitude_range(coords):
 def _fix_longitude_range(coords, data_points):
     """Sets the longitude range of the data points to match that of the sample coordinates.
     :param coords: coordinates for grid on which to collocate
-    :param data_points: HyperPointList or GriddedData of data to fix
+    :param UngriddedData or UngriddedCoordinates data_points: data to fix (which is left as it is)
+    :return: The data if it is in that range already, otherwise a copy which is
     """
     range_start = _find_longitude_range(coords)
     if range_start is not None:
-        data_points.set_longitude_range(range_start)
+        for lon in data_points.coords(standard_name='longitude'):
+            if np.any((lon.points < range_start) | (lon.points >= range_start + 360)):
+                data_points = data_points.copy()
+                data_points.set_longitude_range(range_start)
+    return data_points
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index ad198ce..c1dc965 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -888,6 +888,15 @@ class UngriddedCoordinates(CommonData):
                 coord.update_shape()
                 coord.update_range()
 
+    def copy(self):
+        """
+        Create a copy of this UngriddedCoordinates object with new coordinates so that that they can be modified without
+        held references being affected. Will call any lazy loading methods in the coordinates
+
+        :return: Copied UngriddedCoordinates object
+        """
+        return UngriddedCoordinates(self.coords().copy())
+
     @property
     def coords_flattened(self):
         all_coords = self.coords().find_standard_coords()
-- 
2.43.0


From de5acad37d8547648d3bdc202de2aa9f92ba78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 047/125] fix: each data object has its own list of filenames

---
 cis/data_io/common_data.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index 049f058..e6b48a2 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -7,10 +7,26 @@ class CommonData(object):
     """
     Interface of common methods implemented for gridded and ungridded data.
     """
-    filenames = []
+    _filenames = None
 
     _alias = None
 
+    @property
+    def filenames(self):
+        """
+        The names of the files which this data object was read from (each object has its own list).
+
+        :return: A list of filenames
+        :rtype: list
+        """
+        if self._filenames is None:
+            self._filenames = []
+        return self._filenames
+
+    @filenames.setter
+    def filenames(self, filenames):
+        self._filenames = list(filenames)
+
     @property
     @abstractmethod
     def history(self):
-- 
2.43.0


From 8d4a365610382e4da912d794977477eab6bc2d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 048/125] fix: copies and derivatives of gridded data are
 GriddedData objects with coordinates of their own

---
 cis/data_io/gridded_data.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index d599c3d..a3afd24 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -96,13 +96,29 @@ class GriddedData(iris.cube.Cube, CommonData):
         """
         if data is None:
             data = np.zeros(self.shape)
-        data = GriddedData(data=data, standard_name=standard_name, long_name=long_name, var_name=var_name,
-                           units=units, dim_coords_and_dims=self._dim_coords_and_dims,
-                           aux_coords_and_dims=self._aux_coords_and_dims, aux_factories=self._aux_factories)
+        # The new object needs its own coordinates (and the derived coordinates have to depend on those)
+        new_coords = dict((id(c), c.copy()) for c, _ in self._dim_coords_and_dims + self._aux_coords_and_dims)
+        data = GriddedData(data=data, standard_name=standard_name, long_name=long_name, var_name=var_name, units=units,
+                           dim_coords_and_dims=[(new_coords[id(c)], dims) for c, dims in self._dim_coords_and_dims],
+                           aux_coords_and_dims=[(new_coords[id(c)], dims) for c, dims in self._aux_coords_and_dims],
+                           aux_factories=[factory.updated(new_coords) for factory in self._aux_factories])
         # Add history separately as it is not a constructor argument
         data.add_history(history)
         return data
 
+    def copy(self, data=None):
+        """
+        Create a copy of this GriddedData object, which can be modified without this one being affected
+
+        :param ndarray data: Replace the data of the copy with the provided data
+        :return: Copied GriddedData object
+        """
+        new_data = make_from_cube(super(GriddedData, self).copy(data))
+        new_data._local_attributes = list(self._local_attributes)
+        new_data.filenames = self.filenames
+        new_data.alias = self._alias
+        return new_data
+
     def __repr__(self):
         # Override the Cube representation
         return "<cis 'GriddedData' of %s>" % self.summary(shorten=True)
-- 
2.43.0


From 5a2faf47286f7d9c03b537c2559bc2f92884b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 049/125] fix: copies and derivatives of ungridded data have
 coordinates and metadata of their own

---
 cis/data_io/ungridded_data.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index c1dc965..d65f65a 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -22,7 +22,7 @@ class Metadata(object):
     @classmethod
     def from_CubeMetadata(cls, cube_meta):
         return cls(name=cube_meta.var_name, standard_name=cube_meta.standard_name, long_name=cube_meta.long_name,
-                   units=str(cube_meta.units), misc=cube_meta.attributes)
+                   units=str(cube_meta.units), misc=dict(cube_meta.attributes))
 
     def __init__(self, name='', standard_name='', long_name='', shape=None, units='', range=None, factor=None,
                  offset=None, missing_value=None, history='', misc=None):
@@ -520,6 +520,7 @@ class UngriddedData(LazyData, CommonData):
         :param flatten: Whether to flatten the data and coordinates (for ungridded data only)
         :return: UngriddedData instance
         """
+        from copy import deepcopy
         if data is None:
             data = numpy.zeros(self.shape)
         metadata = Metadata(name=var_name, standard_name=standard_name,
@@ -529,9 +530,9 @@ class UngriddedData(LazyData, CommonData):
             data = data.flatten()
             new_coords = []
             for coord in self._coords:
-                new_coords.append(Coord(coord.data_flattened, coord.metadata, coord.axis))
+                new_coords.append(Coord(coord.data_flattened.copy(), deepcopy(coord.metadata), coord.axis))
         else:
-            new_coords = self._coords
+            new_coords = self._coords.copy()
         ug_data = UngriddedData(data=data, metadata=metadata, coords=new_coords)
         # Copy the history in separately so it gets the timestamp added.
         if history:
@@ -566,7 +567,11 @@ class UngriddedData(LazyData, CommonData):
         from copy import deepcopy
         data = data if data is not None else numpy.ma.copy(self.data)  # This will load the data if lazy load
         coords = self.coords().copy()
-        return UngriddedData(data=data, metadata=deepcopy(self.metadata), coords=coords)
+        new_data = UngriddedData(data=data, metadata=deepcopy(self.metadata), coords=coords)
+        new_data.attributes = deepcopy(self.attributes)
+        new_data.filenames = self.filenames
+        new_data.alias = self._alias
+        return new_data
 
     @property
     def size(self):
-- 
2.43.0


From 796b43b4e855fe02f45747518eccf7f5d0f81694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:20 +0000
Subject: [PATCH 050/125] fix: collocated and aggregated data have coordinates
 of their own

---
 cis/aggregation/ungridded_aggregator.py | 2 +-
 cis/collocation/col_implementations.py  | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/cis/aggregation/ungridded_aggregator.py b/cis/aggregation/ungridded_aggregator.py
index 5e3fb59..49a0950 100644
--- a/cis/aggregation/ungridded_aggregator.py
+++ b/cis/aggregation/ungridded_aggregator.py
@@ -127,7 +127,7 @@ class UngriddedAggregator(object):
         :param aggregated_cube: The aggregated cube to give new bounds
         :param source_cube: The source cube which the aggregation was made from.
         """
-        for coord in aggregated_cube.coords():
+        for coord in [coord for cube in aggregated_cube for coord in cube.coords()]:
             if len(coord.points) == 1 and np.all(np.isinf(coord.bounds)):
                 source_coord = source_cube.coord(coord.name())
                 coord_start, coord_end, coord_centre = self._get_coord_start_end_centre(source_coord)
diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 57d15bd..18c4119 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -107,7 +107,7 @@ class GeneralUngriddedCollocator(Collocator):
             var_metadata = Metadata(name=var_details[0], long_name=var_details[1], shape=(len(sample_points),),
                                     missing_value=self.fill_value, units=var_details[3])
             set_standard_name_if_valid(var_metadata, var_details[2])
-            return_data.append(UngriddedData(values[idx, :], var_metadata, points.coords()))
+            return_data.append(UngriddedData(values[idx, :], var_metadata, points.coords().copy()))
         log_memory_profile("GeneralUngriddedCollocator final")
 
         return return_data
@@ -179,7 +179,7 @@ class GriddedUngriddedCollocator(Collocator):
         metadata = Metadata(self.var_name or data.var_name, long_name=self.var_long_name or data.long_name,
                             shape=values.shape, missing_value=self.fill_value, units=self.var_units or data.units)
         set_standard_name_if_valid(metadata, data.standard_name)
-        return_data = UngriddedDataList([UngriddedData(values, metadata, points.coords())])
+        return_data = UngriddedDataList([UngriddedData(values, metadata, points.coords().copy())])
 
         log_memory_profile("GriddedUngriddedCollocator final")
 
@@ -826,7 +826,8 @@ class GeneralGriddedCollocator(Collocator):
                 "there are multiple points in the sample data so whether the data is missing or not can not be "
                 "determined")
 
-        coords = points.coords()
+        # The coordinates might be given bounds, so leave those of the sample as they are
+        coords = [coord.copy() for coord in points.coords()]
         shape = []
         output_coords = []
 
@@ -977,7 +978,7 @@ class GeneralGriddedCollocator(Collocator):
         """
         dim_coords_and_dims = []
         for idx, coord in enumerate(coords):
-            dim_coords_and_dims.append((coord, idx))
+            dim_coords_and_dims.append((coord.copy(), idx))
         cube = GriddedData(data, standard_name=src_data.standard_name,
                            long_name=src_data.long_name,
                            var_name=src_data.var_name,
-- 
2.43.0


From 6151347dfcc45ba1c6bb49d437d3e23999112c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 051/125] fix: the flattened view of ungridded data always
 reflects the data

---
 cis/data_io/Coord.py          | 1 -
 cis/data_io/ungridded_data.py | 8 +-------
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 172cc56..a2067a6 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -110,7 +110,6 @@ class Coord(LazyData):
         :param float range_start: Start of the longitude range
         """
         self._data = fix_longitude_range(self._data, range_start)
-        self._data_flattened = None
 
     def copy(self, data=None):
         """
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index d65f65a..6fb1ea3 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -188,8 +188,6 @@ class LazyData(object):
         from iris.cube import CubeMetadata
         import numpy as np
 
-        self._data_flattened = None
-
         self.attributes = {}
 
         self.metadata = Metadata.from_CubeMetadata(metadata) if isinstance(metadata, CubeMetadata) else metadata
@@ -338,16 +336,12 @@ class LazyData(object):
     @data.setter
     def data(self, value):
         self._data = value
-        self._data_flattened = None
 
     @property
     def data_flattened(self):
         """Returns a 1D flattened view (or copy, if necessary) of the data.
         """
-        if self._data_flattened is None:
-            data = self.data
-            self._data_flattened = data.ravel()
-        return self._data_flattened
+        return self.data.ravel()
 
     def add_history(self, new_history):
         """Appends to, or creates, the metadata history attribute using the supplied history string.
-- 
2.43.0


From bc9db0612efffb062e8997d68b4e36866529652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 052/125] fix: heed the options given before the command

---
 cis/parse.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 11b897d..bd295c6 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -46,23 +46,35 @@ class AliasedSubParsersAction(argparse._SubParsersAction):
         return parser
 
 
-def initialise_top_parser():
+def _make_global_options(**kwargs):
     """
-    The parser to which all arguments are initially passed
+    The options which can be given either before or after the command
+
+    :param kwargs: Any keyword arguments for each of the options
     """
     global_options = argparse.ArgumentParser(add_help=False)
     verbosity_group = global_options.add_mutually_exclusive_group()
     verbosity_group.add_argument("-v", "--verbose", action='count',
                                  help="Increase the level of logging information output to screen to include "
-                                      "'Info' statements")
+                                      "'Info' statements", **kwargs)
     verbosity_group.add_argument("-q", "--quiet", action='store_true',
                                  help="Suppress all output to the screen, only 'Error' messages will be displayed "
-                                      "(which are always fatal).")
+                                      "(which are always fatal).", **kwargs)
     global_options.add_argument("--force-overwrite", action='store_true',
                                 help="Do not prompt when an output file already exists - always overwrite. This can "
-                                     "also be set by setting the 'CIS_FORCE_OVERWRITE' environment variable to 'TRUE'")
+                                     "also be set by setting the 'CIS_FORCE_OVERWRITE' environment variable to 'TRUE'",
+                                **kwargs)
+
+    return global_options
+
 
-    parser = argparse.ArgumentParser("cis", parents=[global_options])
+def initialise_top_parser():
+    """
+    The parser to which all arguments are initially passed
+    """
+    parser = argparse.ArgumentParser("cis", parents=[_make_global_options()])
+    # The defaults of a command would replace any options which were given before it
+    global_options = _make_global_options(default=argparse.SUPPRESS)
     parser.register('action', 'parsers', AliasedSubParsersAction)
     subparsers = parser.add_subparsers(dest='command')
     plot_parser = subparsers.add_parser("plot", help="Create plots", argument_default=argparse.SUPPRESS, parents=[global_options])
-- 
2.43.0


From 2d6b18c1ad47ee6efe0463c87672bdf4cebda833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 053/125] fix: only the value TRUE of CIS_FORCE_OVERWRITE
 allows to overwrite files

---
 cis/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/parse.py b/cis/parse.py
index bd295c6..e059901 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -833,7 +833,7 @@ def _file_already_exists_and_no_overwrite(arguments):
         overwrite_env = os.environ.get("CIS_FORCE_OVERWRITE", "").lower()
         if arguments.force_overwrite:
             return False
-        elif overwrite_env:
+        elif overwrite_env in ['true', 'false']:
             return overwrite_env == 'false'
         else:
             overwrite = None
-- 
2.43.0


From a0a245c86769bb3c69bf98f2e9f3740ab381d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 054/125] fix: check the value of an option which is the only
 one available

---
 cis/parse.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index e059901..34b5946 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -620,19 +620,8 @@ def parse_colon_and_comma_separated_arguments(inputs, parser, options, compulsor
             raise InvalidCommandLineOptionError('More options specified than are actually available.')
 
         # If there is only one optional argument do not require the 'keyword=' syntax
-        if len(option) == 1 and len(split_input_comma) == 1:
-            split_input_variable = split_outside_brackets(split_input_comma[0], '=')
-            if len(split_input_variable) == 1:
-                input_dict[option[0]] = split_input_variable[0]
-                option.pop(0)
-                split_input_comma.pop(0)
-            elif len(split_input_variable) == 2:
-                if option[0] == split_input_variable[0]:
-                    input_dict[option[0]] = split_input_variable[1]
-                    option.pop(0)
-                    split_input_comma.pop(0)
-            else:
-                raise InvalidCommandLineOptionError('Something is wrong with this argument: ', split_input_comma)
+        if len(option) == 1 and len(split_input_comma) == 1 and '=' not in split_input_comma[0]:
+            split_input_comma[0] = option[0] + '=' + split_input_comma[0]
 
         for i, option in enumerate(option):
             for j in split_input_comma:
-- 
2.43.0


From 45a7a5244c31261ed57ee3a14d2e833cca25bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 055/125] fix: do not cut the values of options at an equals
 sign

---
 cis/parse.py | 8 ++++----
 cis/utils.py | 7 +++----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 34b5946..c880d75 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -625,10 +625,10 @@ def parse_colon_and_comma_separated_arguments(inputs, parser, options, compulsor
 
         for i, option in enumerate(option):
             for j in split_input_comma:
-                # Split the input, [0] will be the key and [1] the value in the list
-                split_input_variable = split_outside_brackets(j, '=')
-                if split_input_variable[0] == option:
-                    input_dict[option] = options[i + compulsory_args](split_input_variable[1], parser)
+                # Only the first equals sign separates the key from the value
+                key, separator, value = j.partition('=')
+                if key == option and separator:
+                    input_dict[option] = options[i + compulsory_args](value, parser)
                     split_input_comma.remove(j)
 
         if len(split_input_comma) != 0:
diff --git a/cis/utils.py b/cis/utils.py
index aca2489..9c50a4d 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -296,10 +296,9 @@ def parse_key_val_list(input_list):
     """
     key_val_dict = {}
     for element in input_list:
-        key_value = element.split('=')
-        key = key_value[0]
-        value = key_value[1] if len(key_value) > 1 else True
-        key_val_dict[key] = value
+        # Only the first equals sign separates the key from the value
+        key, separator, value = element.partition('=')
+        key_val_dict[key] = value if separator else True
 
     return key_val_dict
 
-- 
2.43.0


From 906b264fd50f6987f4dc52205ab8909e670ffa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 056/125] fix: leave brackets and commas within the arguments
 of collocators and kernels alone

---
 cis/parse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index c880d75..452f14f 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -676,10 +676,12 @@ def split_outside_brackets(input, seps=[','], brackets={'[': ']', '(': ')'}):
 def extract_method_and_args(arguments, parser):
     from cis.utils import parse_key_val_list
 
-    elements = multi_split(arguments, ['[', ',', ']'])
-    method_name = elements[0] if len(elements) > 0 else ''
-    args = elements[1:] if len(elements) > 1 else []
-    method_and_args = (method_name, parse_key_val_list(args))
+    match = re.match(r'(?P<name>[^\[\]]+)(?:\[(?P<args>.*)\])?$', arguments)
+    if match is None:
+        parser.error("'" + arguments + "' is not a valid method, the expected format is name[argument=value,...]")
+    # The arguments might have brackets themselves
+    args = [arg for arg in split_outside_brackets(match.group('args') or '') if arg]
+    method_and_args = (match.group('name'), parse_key_val_list(args))
     return method_and_args
 
 
-- 
2.43.0


From 33d4f54de25805abbbcf93463f24e099813da5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 057/125] fix: accept limits for coordinates with names
 starting with shape

---
 cis/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 452f14f..7f713f6 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -540,9 +540,9 @@ def get_subset_limits(subsetlimits, parser):
         # or
         # <dim_name>=[<start_value>]
         match = re.match(r'(?P<dim>[^=]+)=\[(?P<start>[^],]+)(?:,(?P<end>[^],]+))?\]$', seg)
-        if seg.startswith('shape'):
+        if seg.startswith('shape='):
             # Don't use the regexp for this as it gets confused with the commas
-            limit_dict['shape'] = seg.split('=')[1]
+            limit_dict['shape'] = seg[len('shape='):]
         elif match is None or match.group('dim') is None or match.group('start') is None:
             parser.error(
                 "A dimension for subsetting does not have dimension name, start value and/or end value specified")
-- 
2.43.0


From aa895fe583bc9897ab4bbfd5c257cd1bc1d97a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 058/125] fix: take a single subsetting limit as start and end,
 as documented

---
 cis/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cis/parse.py b/cis/parse.py
index 7f713f6..9ae1391 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -552,6 +552,9 @@ def get_subset_limits(subsetlimits, parser):
 
             limit1 = match.group('start')
             limit2 = match.group('end')
+            if limit2 is None and dim_name.lower() not in ['t', 'time']:
+                # A single value is both the start and the end
+                limit2 = limit1
 
             # If the dimension is specified as x, y, z, or t, assume that the dimension is spatial or temporal in the
             # obvious way. Otherwise, parse what is found as a date/time or number.
-- 
2.43.0


From 23273f612ab9dab7e335b4c4ad781fa2aa0eca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 059/125] fix: refuse malformed aggregation grids rather than
 collapsing the coordinate

---
 cis/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index 9ae1391..a1c926a 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -466,8 +466,8 @@ def get_aggregate_grid(aggregategrid, parser):
     for seg in split_input:
         # Parse out dimension name and new grid spacing; the expected format is:
         # <dim_name>=[<start_value>,<end_value,<delta>]
-        match = re.match(r'(?P<dim>[^=]+)(?:=)?(?:\[(?P<start>[^],]+)?(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^]]+))?\])?',
-                         seg)
+        match = re.match(r'(?P<dim>[^=\[\]]+)'
+                         r'(?:=\[(?P<start>[^],]+)(?:,(?P<end>[^],]+))?(?:,(?P<delta>[^],]+))?\])?$', seg)
         if match is None or match.group('dim') is None:
             parser.error("A dimension for aggregation does not have a valid dimension name")
         elif match.group('start') is None and match.group('delta') is None:
-- 
2.43.0


From 9e6db701db5b0e72e50e4d9c8d070a8b067278de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 060/125] fix: remove all of the blanks from lists of variables

---
 cis/parse.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/cis/parse.py b/cis/parse.py
index a1c926a..507802c 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -700,12 +700,8 @@ def multi_split(s, seps):
         for seq in s:
             res += seq.split(sep)
 
-    for i in res:
-        # Remove empty strings
-        if not i:
-            res.pop(res.index(i))
-
-    return res
+    # Remove empty strings
+    return [i for i in res if i]
 
 
 def check_nothing(item, parser):
@@ -719,8 +715,7 @@ def check_is_not_empty(item, parser):
 
 
 def check_is_not_empty_and_comma_split(item, parser):
-    check_is_not_empty(item, parser)
-    return multi_split(item, [','])
+    return check_is_not_empty(multi_split(item, [',']), parser)
 
 
 def _set_aliases_for_datagroups(datagroups, parser):
-- 
2.43.0


From ca37a2abf115b266b81e8ca73db9fe2492052a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 061/125] fix: refuse contour levels which are not in brackets
 rather than dropping digits

---
 cis/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cis/parse.py b/cis/parse.py
index 507802c..0f83f52 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -758,6 +758,8 @@ def _set_aliases_for_datagroups(datagroups, parser):
 
 def convert_to_list_of_floats(arg, parser):
     # Given a string such as '[10.0,11.1,12.2]' retruns a list containing, 10.0, 11.1, 12.2
+    if not (arg.startswith('[') and arg.endswith(']')):
+        parser.error("'" + arg + "' is not a valid list, it should be enclosed in square brackets")
     return [float(x) for x in arg[1:-1].split(',')]
 
 
-- 
2.43.0


From 5a171fc71431028544bff83c9aba3433e06b4686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 062/125] fix: be as verbose as possible when asked for more
 than that

---
 cis/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/parse.py b/cis/parse.py
index 0f83f52..e09594b 100644
--- a/cis/parse.py
+++ b/cis/parse.py
@@ -1007,7 +1007,7 @@ def parse_args(arguments=None):
         logging.getLogger().handlers[0].setLevel(logging.ERROR)
     elif main_args.verbose == 1:
         logging.getLogger().handlers[0].setLevel(logging.INFO)
-    elif main_args.verbose == 2:
+    elif main_args.verbose:
         logging.getLogger().handlers[0].setLevel(logging.DEBUG)
 
     main_args = validators[main_args.command](main_args, parser)
-- 
2.43.0


From 13e34a6c15e90fce5c7abc542faf7f3e8cf54c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 063/125] fix: don't swap time and pressure in hyper_point, nor
 fail where a coordinate is absent

---
 cis/data_io/ungridded_data.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 6fb1ea3..f8a0963 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -604,12 +604,8 @@ class UngriddedData(LazyData, CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
-                          self.coord(standard_name='longitude').data.flat[index],
-                          self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
-                          self.coord(standard_name='air_pressure').data.flat[index],
-                          self.data.flat[index])
+        coord_values = [c.data.flat[index] if c is not None else None for c in self.find_standard_coords()]
+        return HyperPoint(*(coord_values + [self.data.flat[index]]))
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
         """
@@ -946,12 +942,8 @@ class UngriddedCoordinates(CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        return HyperPoint(self.coord(standard_name='latitude').data.flat[index],
-                          self.coord(standard_name='longitude').data.flat[index],
-                          self.coord(standard_name='altitude').data.flat[index],
-                          self.coord(standard_name='time').data.flat[index],
-                          self.coord(standard_name='air_pressure').data.flat[index],
-                          None)
+        coord_values = [c.data.flat[index] if c is not None else None for c in self._coords.find_standard_coords()]
+        return HyperPoint(*coord_values)
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
         """
-- 
2.43.0


From 198b91e0f77ed6729fec0082850d480e17306923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 064/125] fix: remove points with missing coordinates before
 copying the data, not in between data and coordinates

---
 cis/data_io/ungridded_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index f8a0963..37438ad 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -559,8 +559,9 @@ class UngriddedData(LazyData, CommonData):
         :return: Copied UngriddedData object
         """
         from copy import deepcopy
-        data = data if data is not None else numpy.ma.copy(self.data)  # This will load the data if lazy load
+        # Get the coordinates first as any points for which they're missing get removed from the data when we do
         coords = self.coords().copy()
+        data = data if data is not None else numpy.ma.copy(self.data)  # This will load the data if lazy load
         new_data = UngriddedData(data=data, metadata=deepcopy(self.metadata), coords=coords)
         new_data.attributes = deepcopy(self.attributes)
         new_data.filenames = self.filenames
-- 
2.43.0


From 7f0849742d088fb28a48fc53214591fd072611ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 065/125] fix: the size of coordinates which only have one
 dimension

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 37438ad..d20a837 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -904,7 +904,7 @@ class UngriddedCoordinates(CommonData):
 
     @property
     def size(self):
-        if len(self._coords) > 1:
+        if len(self._coords) > 0:
             return self._coords[0].data.size
         else:
             return 0
-- 
2.43.0


From d1abd73186da030ade0dff9800fe55f48c534e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 066/125] fix: name the columns of coordinates without a
 standard name

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index d20a837..0d31d5e 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1189,7 +1189,7 @@ def _coords_as_data_frame(coord_list, copy=True, time_index=True):
             else:
                 time = cis_standard_time_unit.num2date(data)
         else:
-            columns[coord.standard_name] = data
+            columns[coord.name()] = data
 
     return pd.DataFrame(columns, index=time)
 
-- 
2.43.0


From 0a217925939dc294f6922bb43df601e5c1db4f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 067/125] fix: summarise the data as it is now rather than as
 it was when last looking at the coordinates

---
 cis/data_io/ungridded_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 0d31d5e..22d2f03 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -719,6 +719,10 @@ class UngriddedData(LazyData, CommonData):
         if shorten:
             return summary
 
+        # Ensure any points with missing coordinates are removed, and the range is up to date
+        self._post_process()
+        self.update_range()
+
         summary += '     Shape = {}\n'.format(self.data.shape) + '\n'
         summary += '     Total number of points = {}\n'.format(self.size)
         summary += '     Number of non-masked points = {}\n'.format(self.count())
-- 
2.43.0


From e37cbb72dc3e4e840fd6c62655e546bdedc4e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 068/125] fix: load lazy longitudes before changing their range

---
 cis/data_io/Coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index a2067a6..73f6bae 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -109,7 +109,7 @@ class Coord(LazyData):
 
         :param float range_start: Start of the longitude range
         """
-        self._data = fix_longitude_range(self._data, range_start)
+        self.data = fix_longitude_range(self.data, range_start)
 
     def copy(self, data=None):
         """
-- 
2.43.0


From f023122dcee9772cb458ce5730905840002e7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 069/125] fix: leave the shape of the first coordinate alone
 when concatenating coordinates

---
 cis/data_io/Coord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 73f6bae..662806e 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -16,8 +16,9 @@ class Coord(LazyData):
         :return: A single :class:`Coord` object
         """
         from cis.utils import concatenate
+        from copy import deepcopy
         data = concatenate([ug.data for ug in coords])
-        metadata = coords[0].metadata  # Use the first file as a master for the metadata...
+        metadata = deepcopy(coords[0].metadata)  # Use the first file as a master for the metadata...
         metadata.shape = data.shape  # But update the shape
         return cls(data, metadata, coords[0].axis)
 
-- 
2.43.0


From 84e17a56fd2097b6af31388939f14ec9f897d7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 070/125] fix: don't ignore standard times when modifying a
 hyperpoint

---
 cis/data_io/hyperpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/hyperpoint.py b/cis/data_io/hyperpoint.py
index ba3d765..6fb6a1b 100644
--- a/cis/data_io/hyperpoint.py
+++ b/cis/data_io/hyperpoint.py
@@ -64,7 +64,8 @@ class HyperPoint(namedtuple('HyperPoint', ['latitude', 'longitude', 'altitude',
             values[HyperPoint.AIR_PRESSURE] = pres
         if t is not None:
             if isinstance(t, datetime.datetime):
-                values[HyperPoint.TIME] = convert_datetime_to_std_time(t)
+                t = convert_datetime_to_std_time(t)
+            values[HyperPoint.TIME] = t
         if val is not None:
             if val == []:
                 values[HyperPoint.VAL] = []
-- 
2.43.0


From 32c9d84c00a5b5473da5208059441854c4544db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 071/125] fix: the dimensions of standard coordinates of data
 with anonymous dimensions

---
 cis/data_io/gridded_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index a3afd24..8eacff8 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -167,9 +167,10 @@ class GriddedData(iris.cube.Cube, CommonData):
         coords = self.coords(dim_coords=True)
         for name in HyperPoint.standard_names:
             coord_and_dim = None
-            for idx, coord in enumerate(coords):
+            for coord in coords:
                 if coord.standard_name == name:
-                    coord_and_dim = (coord, idx)
+                    # Not all dimensions have a coordinate, so the position in the list isn't necessarily the dimension
+                    coord_and_dim = (coord, self.coord_dims(coord)[0])
                     break
             ret_list.append(coord_and_dim)
 
-- 
2.43.0


From 670bc9ae9cf5cad8dbc26f71ea9bd15b6e129bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 072/125] fix: points of gridded data with dimensions other
 than the standard ones

---
 cis/data_io/hyperpoint_view.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index f1bc236..0edc6a7 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -239,8 +239,6 @@ class GriddedHyperPointView(HyperPointView):
             coord = self.coords[idx]
             if coord is not None:
                 val[self.dims_to_std_coords_map[idx]] = coord[coord_idx]
-            else:
-                val.append(None)
         if self.data is not None:
             val.append(self.data[indices])
         return HyperPoint(*val)
-- 
2.43.0


From 546fdaf79d9f0c38b66b88ae3def53bfc6beba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 073/125] fix: iterate over all of the dimensions of gridded
 data, including those of length one

---
 cis/data_io/hyperpoint_view.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 0edc6a7..8882299 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -253,8 +253,7 @@ class GriddedHyperPointView(HyperPointView):
         """Iterates over all or non-masked points according to the value of non_masked_iteration
         :return: next HyperPoint
         """
-        shape = [c.size for c in self.coords if (c is not None and c.size > 1)]
-        for idx in cis.utils.index_iterator(shape):
+        for idx in cis.utils.index_iterator(self.data.shape):
             if self.non_masked_iteration and self.data is not None and self.data[idx] is np.ma.masked:
                 continue
             yield self.__getitem__(idx)
-- 
2.43.0


From 08eebf48b725e4111c568bb69d2db5bfa7f6b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 074/125] fix: wrap longitudes of gridded points by as many
 rotations as necessary

---
 cis/data_io/hyperpoint_view.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/cis/data_io/hyperpoint_view.py b/cis/data_io/hyperpoint_view.py
index 8882299..63c5645 100644
--- a/cis/data_io/hyperpoint_view.py
+++ b/cis/data_io/hyperpoint_view.py
@@ -337,18 +337,7 @@ class GriddedHyperPointView(HyperPointView):
         if coord is None:
             return
 
-        range_end = range_start + 360.0
-        if coord is not None:
-            new_coord = np.empty_like(coord)
-            for i, lon in enumerate(coord):
-                if lon < range_start:
-                    new_lon = lon + 360.0
-                elif lon >= range_end:
-                    new_lon = lon - 360.0
-                else:
-                    new_lon = lon
-                new_coord[i] = new_lon
-            self.longitudes = new_coord
+        self.longitudes = coord - 360.0 * np.floor((coord - range_start) / 360.0)
 
     def _dimension_index_for_hyperpoint_index(self, hp_index):
         """Finds the index of the dimension corresponding to a hyperpoint coordinate index.
-- 
2.43.0


From 867493f8c338113cd36204a86b56d6af12daa8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 075/125] fix: remove points with missing times before working
 out the range of the times

---
 cis/data_io/ungridded_data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 22d2f03..de5b216 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -480,8 +480,6 @@ class UngriddedData(LazyData, CommonData):
                 combined_mask |= numpy.ma.getmaskarray(coord.data).flatten()
                 if coord.data.dtype != 'object':
                     combined_mask |= numpy.isnan(coord.data).flatten()
-                coord.update_shape()
-                coord.update_range()
             if combined_mask.any():
                 n_points = numpy.count_nonzero(combined_mask)
                 logging.warning(
@@ -489,14 +487,16 @@ class UngriddedData(LazyData, CommonData):
                     "these points have been removed from the data.".format(n_points=n_points))
                 for coord in self._coords:
                     coord.data = numpy.ma.masked_array(coord.data.flatten(), mask=combined_mask).compressed()
-                    coord.update_shape()
-                    coord.update_range()
                 if numpy.ma.is_masked(self._data):
                     new_data_mask = numpy.ma.masked_array(self._data.mask.flatten(), mask=combined_mask).compressed()
                     new_data = numpy.ma.masked_array(self._data.data.flatten(), mask=combined_mask).compressed()
                     self._data = numpy.ma.masked_array(new_data, mask=new_data_mask)
                 else:
                     self._data = numpy.ma.masked_array(self._data.flatten(), mask=combined_mask).compressed()
+            # Only work out the ranges without the missing values, which might not have a valid time for example
+            for coord in self._coords:
+                coord.update_shape()
+                coord.update_range()
             self.update_shape()
             self.update_range()
 
-- 
2.43.0


From d58409eefdbdfbd390d66a99cfbc74d2f92a5e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 076/125] fix: slices of gridded data are gridded data, with
 all of its methods

---
 cis/data_io/gridded_data.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 8eacff8..475b843 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -132,6 +132,14 @@ class GriddedData(iris.cube.Cube, CommonData):
         for c in itr:
             yield make_from_cube(c)
 
+    def __getitem__(self, keys):
+        # Iris gives plain cubes for the slices of any subclass
+        new_data = make_from_cube(super(GriddedData, self).__getitem__(keys))
+        new_data._local_attributes = list(self._local_attributes)
+        new_data.filenames = self.filenames
+        new_data.alias = self._alias
+        return new_data
+
     def slices(self, *args, **kwargs):
         return self._wrap_cube_iterator(super(GriddedData, self).slices(*args, **kwargs))
 
-- 
2.43.0


From a2c15a3b1be35edd2ab6eb74ec5357fa87c3bd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:55 +0000
Subject: [PATCH 077/125] fix: keep the attributes and file names of ungridded
 data when slicing it

---
 cis/data_io/ungridded_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index de5b216..d1a5d5d 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -546,7 +546,11 @@ class UngriddedData(LazyData, CommonData):
         #  data, and will lead to post-processing before slicing.
         # TODO: We could be cleverer and figure out the right slice across the various data managers to only read the
         #  right data from disk.
-        return UngriddedData(data=self.data[keys].copy(), metadata=deepcopy(self.metadata), coords=new_coords)
+        new_data = UngriddedData(data=self.data[keys].copy(), metadata=deepcopy(self.metadata), coords=new_coords)
+        new_data.attributes = deepcopy(self.attributes)
+        new_data.filenames = self.filenames
+        new_data.alias = self._alias
+        return new_data
 
     def copy(self, data=None):
         """
-- 
2.43.0


From 8258016b647de4c4cb3e58ac72a1c7953a83d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 078/125] fix: coordinates without a standard name aren't all
 the same one

---
 cis/data_io/Coord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/Coord.py b/cis/data_io/Coord.py
index 662806e..51f859a 100644
--- a/cis/data_io/Coord.py
+++ b/cis/data_io/Coord.py
@@ -56,7 +56,8 @@ class Coord(LazyData):
         return self.data
 
     def __eq__(self, other):
-        return other.metadata.standard_name == self.metadata.standard_name and self.metadata.standard_name != ''
+        return other.metadata.standard_name == self.metadata.standard_name and \
+            self.metadata.standard_name not in ('', None)
 
     def convert_julian_to_std_time(self):
         from cis.time_util import convert_julian_date_to_std_time, cis_standard_time_unit
-- 
2.43.0


From 7865bc1edaff1925db9b2e9ff2a0542a39a822b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 079/125] fix: summarise data which doesn't have a range, such
 as when there are no valid points

---
 cis/data_io/ungridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index d1a5d5d..c6687d5 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -84,7 +84,7 @@ class Metadata(object):
         string += '{pad:{width}}Missing value = {mval}\n'.format(pad=' ', width=offset, mval=self.missing_value)
         # str(tuple) returns repr(obj) on each item in the tuple, if we have a datetime tuple then we want str(obj)
         #  instead. Just make that ourselves here instead (as a str to avoid the extra quotes if we make a 'real' tuple)
-        if isinstance(self.range[0], datetime):
+        if self.range and isinstance(self.range[0], datetime):
             range_tuple = '({}, {})'.format(*self.range)
         else:
             range_tuple = self.range
-- 
2.43.0


From 1413c388e9cc96977b1218e43281cbc796039ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 080/125] fix: masked arrays of datetimes in coordinates (e.g.
 from several files)

---
 cis/data_io/ungridded_data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index c6687d5..8ca9fa4 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -403,7 +403,7 @@ class LazyData(object):
                              cis_standard_time_unit.num2date(self.data.max()))
                 else:
                     range = (self.data.min(), self.data.max())
-            except (ValueError, TypeError) as e:
+            except (ValueError, TypeError, AttributeError) as e:
                 # If we can't set a range for some reason (e.g. all times are missing) then just leave it blank
                 range = ()
 
@@ -609,7 +609,7 @@ class UngriddedData(LazyData, CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        coord_values = [c.data.flat[index] if c is not None else None for c in self.find_standard_coords()]
+        coord_values = [c.data_flattened[index] if c is not None else None for c in self.find_standard_coords()]
         return HyperPoint(*(coord_values + [self.data.flat[index]]))
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
@@ -951,7 +951,7 @@ class UngriddedCoordinates(CommonData):
         :return: A hyperpoint representing the data at that point
         """
         from cis.data_io.hyperpoint import HyperPoint
-        coord_values = [c.data.flat[index] if c is not None else None for c in self._coords.find_standard_coords()]
+        coord_values = [c.data_flattened[index] if c is not None else None for c in self._coords.find_standard_coords()]
         return HyperPoint(*coord_values)
 
     def as_data_frame(self, copy=True, time_index=True, name=None):
@@ -1216,8 +1216,8 @@ def _to_flat_ndarray(data, copy=True):
         if not copy:
             raise ValueError("Masked arrays must always be copied.")
         # We need to cast the array to a float so that we can fill the array with NaNs for Pandas (which would do the
-        #  same trick itself anyway)
-        ndarr = data.astype(float).filled(np.NaN).flatten()
+        #  same trick itself anyway). Objects, such as datetimes, can sit alongside NaNs anyway.
+        ndarr = data.astype(object if data.dtype == object else float).filled(np.NaN).flatten()
     elif copy:
         ndarr = data.flatten()
     else:
-- 
2.43.0


From cf5234041fc072c4ece08b0ce8d969e8a3fb3955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 081/125] fix: load lazy data before making new data with the
 same coordinates

---
 cis/data_io/ungridded_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index 8ca9fa4..dd7265c 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -515,6 +515,8 @@ class UngriddedData(LazyData, CommonData):
         :return: UngriddedData instance
         """
         from copy import deepcopy
+        # Ensure that the data is loaded and any points with missing coordinates are removed before using the shape
+        self._post_process()
         if data is None:
             data = numpy.zeros(self.shape)
         metadata = Metadata(name=var_name, standard_name=standard_name,
-- 
2.43.0


From 6beff2dad7cd77e871cfab19f05ccb87f6a1aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 082/125] fix: leave all of the abstract classes out of the
 plugins, not just every other one or those named so

---
 cis/plugin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cis/plugin.py b/cis/plugin.py
index c0149d1..d832fc1 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -61,6 +61,7 @@ def find_plugins(plugin_dir, parent_class_name, verbose):
 
 
 def find_plugin_classes(parent_class, built_in_module, verbose=True):
+    import inspect
     import os
     # find plugin classes, if any
     ENV_PATH = "CIS_PLUGIN_HOME"
@@ -71,9 +72,9 @@ def find_plugin_classes(parent_class, built_in_module, verbose=True):
     subclasses = get_all_subclasses(parent_class, built_in_module)
     all_classes = plugin_classes + subclasses
 
-    for subclass in all_classes:
-        if subclass.__name__.startswith('abstract') or subclass.__name__.startswith('Abstract'):
-            all_classes.remove(subclass)
+    # The abstract classes can't be used themselves (don't rely on the names only, they can't be instantiated anyway)
+    all_classes = [subclass for subclass in all_classes if not subclass.__name__.startswith(('abstract', 'Abstract')) and
+                   not inspect.isabstract(subclass)]
 
     all_classes = sorted(all_classes, key=lambda subclass: subclass.__name__)
 
-- 
2.43.0


From 20f56714efc0a1475737feb0ed4ba2f90dbf91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 083/125] fix: find all of the plugin classes in all of the
 plugin files, even if one of the files is broken

---
 cis/plugin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cis/plugin.py b/cis/plugin.py
index d832fc1..0fab94b 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -53,9 +53,14 @@ def find_plugins(plugin_dir, parent_class_name, verbose):
     for plugin in plugin_files:
         if verbose:
             logging.info("Importing plugin: " + str(plugin))
-        module = __import__(plugin)
+        try:
+            module = __import__(plugin)
+        except Exception as e:
+            # Don't let this stop us from using all of the others
+            logging.error("Unable to import plugin {}: {}: {}".format(plugin, type(e).__name__, e))
+            continue
         classes = [getattr(module, x) for x in dir(module) if isinstance(getattr(module, x), type)]
-        product_classes = [cls for cls in classes if parent_class_name in str(cls.__bases__[0])]
+        product_classes += [cls for cls in classes if parent_class_name in [base.__name__ for base in cls.__mro__[1:]]]
 
     return product_classes
 
-- 
2.43.0


From 1dbc6d0df318f1ee765408e8c79f075aed7a1f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 084/125] fix: match the whole file name with all alternatives
 of a file signature

---
 cis/data_io/products/AProduct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/data_io/products/AProduct.py b/cis/data_io/products/AProduct.py
index a061f30..69b9b6e 100644
--- a/cis/data_io/products/AProduct.py
+++ b/cis/data_io/products/AProduct.py
@@ -164,8 +164,8 @@ def __get_class(filename, product=None):
             patterns = class_instance.get_file_signature()
             for pattern in patterns:
                 # Match the pattern - re.I allows for case insensitive matches.
-                # Appending '$' to the pattern ensures we match the whole string
-                if re.match(pattern+'$', basename, re.I) is not None:
+                # A full match ensures we match the whole string, whichever alternatives there are in the pattern
+                if re.fullmatch(pattern, basename, re.I) is not None:
                     logging.debug("Found product class " + cls.__name__ + " matching regex pattern " + pattern)
                     errors = class_instance.get_file_type_error(filename)
                     if errors is None:
-- 
2.43.0


From c7dd90b7ecd5ff824c3bd2a7a8ae2317410fe1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:27 +0000
Subject: [PATCH 085/125] fix: make the collocation framework's abstract
 classes abstract under Python 3 too

---
 cis/collocation/col_framework.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cis/collocation/col_framework.py b/cis/collocation/col_framework.py
index b495a74..d56bb68 100644
--- a/cis/collocation/col_framework.py
+++ b/cis/collocation/col_framework.py
@@ -45,12 +45,12 @@ class Collocator(object):
         """
 
 
+@six.add_metaclass(ABCMeta)
 class Kernel(object):
     """
     Class which provides a method for taking a number of points and returning one value. For example a nearest
     neighbour algorithm or sort algorithm or mean. This just defines the interface which the subclasses must implement.
     """
-    __metaclass__ = ABCMeta
 
     #: The number of values the :meth:`.Kernel.get_value` should be expected to return
     #: (i.e. the length of the return list).
@@ -93,8 +93,6 @@ class AbstractDataOnlyKernel(Kernel):
     point.
     """
 
-    __metaclass__ = ABCMeta
-
     def get_value(self, point, data):
         """
         This method is redundant in the AbstractDataOnlyKernel and only serves as an interface to
@@ -128,13 +126,13 @@ class AbstractDataOnlyKernel(Kernel):
         """
 
 
+@six.add_metaclass(ABCMeta)
 class Constraint(object):
     """
     Class which provides a method for constraining a set of points. A single HyperPoint is given as a reference
     but the data points to be reduced ultimately may be of any type. This just defines the interface which the
     subclasses must implement.
     """
-    __metaclass__ = ABCMeta
 
     @abstractmethod
     def constrain_points(self, point, data):
@@ -187,8 +185,6 @@ class PointConstraint(Constraint):
 
     The point argument in constrain_points is a HyperPoint.
     """
-    __metaclass__ = ABCMeta
-    pass
 
 
 class CellConstraint(Constraint):
@@ -197,7 +193,6 @@ class CellConstraint(Constraint):
     The point argument in constrain_points is a HyperPoint in which the
     coordinate values are of type iris.coords.Cell.
     """
-    __metaclass__ = ABCMeta
 
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
         from cis.collocation.col_implementations import HyperPoint
@@ -222,7 +217,6 @@ class CellConstraint(Constraint):
 class IndexedConstraint(Constraint):
     """Superclass of constraints that expect points to be referenced by index.
     """
-    __metaclass__ = ABCMeta
 
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
         from cis.collocation.col_implementations import HyperPoint
-- 
2.43.0


From adcc33ae98997316c83f8e92c529694308888691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 086/125] fix: find the plugins in files named as other
 modules, or with dots in their names

---
 cis/plugin.py | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/cis/plugin.py b/cis/plugin.py
index 0fab94b..8558d08 100644
--- a/cis/plugin.py
+++ b/cis/plugin.py
@@ -20,6 +20,41 @@ def get_all_subclasses(parent_class, mod):
     return subclasses
 
 
+def import_plugin(plugin_dir, plugin):
+    """
+    Import a plugin module, once. It is imported by its name if that's possible, or otherwise - the name might be that
+    of some other module, or include dots - from its file directly.
+
+    :param str plugin_dir: The directory of the plugin
+    :param str plugin: The name of the plugin file, without the extension
+    :return: The module
+    """
+    import importlib
+    import importlib.util
+    import os
+    import sys
+
+    path = os.path.abspath(os.path.join(plugin_dir, plugin + '.py'))
+
+    if '.' not in plugin:
+        spec = importlib.util.find_spec(plugin) if plugin not in sys.modules else sys.modules[plugin].__spec__
+        origin = spec.origin if spec is not None else None
+        if origin is not None and os.path.exists(origin) and os.path.samefile(origin, path):
+            return importlib.import_module(plugin)
+
+    name = 'cis_plugin:' + path
+    if name not in sys.modules:
+        spec = importlib.util.spec_from_file_location(name, path)
+        module = importlib.util.module_from_spec(spec)
+        sys.modules[name] = module
+        try:
+            spec.loader.exec_module(module)
+        except BaseException:
+            del sys.modules[name]
+            raise
+    return sys.modules[name]
+
+
 def find_plugins(plugin_dir, parent_class_name, verbose):
     import logging
     import os
@@ -47,14 +82,15 @@ def find_plugins(plugin_dir, parent_class_name, verbose):
     if len(plugin_files) == 0:
         return []
 
-    sys.path.insert(0, plugin_dir)
+    if plugin_dir not in sys.path:
+        sys.path.insert(0, plugin_dir)
 
     product_classes = []
     for plugin in plugin_files:
         if verbose:
             logging.info("Importing plugin: " + str(plugin))
         try:
-            module = __import__(plugin)
+            module = import_plugin(plugin_dir, plugin)
         except Exception as e:
             # Don't let this stop us from using all of the others
             logging.error("Unable to import plugin {}: {}: {}".format(plugin, type(e).__name__, e))
-- 
2.43.0


From 362c0ed07e442337178d3e181c3aa1e2558248fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 087/125] fix: don't fail on NetCDF files with a source
 attribute which isn't text

---
 cis/data_io/products/products.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/products.py b/cis/data_io/products/products.py
index 596ccaa..d326675 100644
--- a/cis/data_io/products/products.py
+++ b/cis/data_io/products/products.py
@@ -72,7 +72,7 @@ class cis(AProduct):
         except KeyError as ex:
             errors = ['No source attribute found in {}'.format(filename)]
         else:
-            if not source.startswith('CIS'):
+            if not str(source).startswith('CIS'):
                 errors = ['Source ({}) does not match CIS in {}'.format(source, filename)]
         return errors
 
-- 
2.43.0


From 5957b3ec8a3a1a97070f9f1cfee6fe19f3855397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:07 +0000
Subject: [PATCH 088/125] fix: apply the extrapolate option of the lin and nn
 collocators

---
 cis/cis_main.py               | 2 ++
 cis/data_io/gridded_data.py   | 6 +++++-
 cis/data_io/ungridded_data.py | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 126414c..110e0ae 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -88,6 +88,8 @@ def col_cmd(main_arguments):
 
     missing_data_for_missing_sample = check_boolean(col_options.pop('missing_data_for_missing_sample',
                                                                     str(missing_data_for_missing_sample)), logging)
+    if 'extrapolate' in col_options:
+        col_options['extrapolate'] = check_boolean(col_options['extrapolate'], logging)
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 475b843..e8e6c53 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -377,12 +377,15 @@ class GriddedData(iris.cube.Cube, CommonData):
         :param str var_name: The output variable name
         :param str var_long_name: The output variable's long name
         :param str var_units: The output variable's units
+        :param bool extrapolate: Should values outside of the gridded data be extrapolated (rather than missing)?
         :return CommonData: The collocated dataset
         """
         from cis.collocation import col_implementations as ci
         from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList
         from cis.collocation.col import collocate, get_kernel
 
+        col_options = {}
+
         if isinstance(data, UngriddedData) or isinstance(data, UngriddedDataList):
             col_cls = ci.GeneralGriddedCollocator
             # Bin is the default for ungridded -> gridded collocation
@@ -397,6 +400,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             kernel = get_kernel(kernel)
         elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
             col_cls = ci.GriddedCollocator
+            col_options['extrapolate'] = kwargs.get('extrapolate', False)
             con = None
             if kernel is not None:
                 raise ValueError("Cannot specify kernel when method is 'lin' or 'nn'")
@@ -412,7 +416,7 @@ class GriddedData(iris.cube.Cube, CommonData):
             raise ValueError("Invalid argument, data must be either GriddedData or UngriddedData")
 
         col = col_cls(missing_data_for_missing_sample=missing_data_for_missing_sample, fill_value=fill_value,
-                      var_name=var_name, var_long_name=var_long_name, var_units=var_units)
+                      var_name=var_name, var_long_name=var_long_name, var_units=var_units, **col_options)
 
         return collocate(data, self, col, con, kernel)
 
diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index dd7265c..cc423c3 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1241,6 +1241,7 @@ def _ungridded_sampled_from(sample, data, how='', kernel=None, missing_data_for_
     :param str var_name: The output variable name
     :param str var_long_name: The output variable's long name
     :param str var_units: The output variable's units
+    :param bool extrapolate: Should values outside of the gridded data be extrapolated (rather than missing)?
     :return CommonData: The collocated dataset
     """
     from cis.collocation import col_implementations as ci
@@ -1260,7 +1261,7 @@ def _ungridded_sampled_from(sample, data, how='', kernel=None, missing_data_for_
         kernel = get_kernel(kernel)
     elif isinstance(data, GriddedData) or isinstance(data, GriddedDataList):
         col = ci.GriddedUngriddedCollocator(fill_value=fill_value, var_name=var_name, var_long_name=var_long_name,
-                                            var_units=var_units,
+                                            var_units=var_units, extrapolate=kwargs.get('extrapolate', False),
                                             missing_data_for_missing_sample=missing_data_for_missing_sample)
         con = None
         if how not in ['', 'lin', 'nn']:
-- 
2.43.0


From 7c598e99868f87a0261a254f20bd44611fe708eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 089/125] fix: write all the collocated datagroups to the
 output file

---
 cis/cis_main.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cis/cis_main.py b/cis/cis_main.py
index 110e0ae..60db884 100755
--- a/cis/cis_main.py
+++ b/cis/cis_main.py
@@ -93,12 +93,20 @@ def col_cmd(main_arguments):
 
     kernel = get_kernel(kern_name)(**kern_options) if kern_name else None
 
+    output = None
     for input_group in main_arguments.datagroups:
         # Then collocate each datagroup
         data = DataReader().read_single_datagroup(input_group)
-        output = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
-                                      missing_data_for_missing_sample=missing_data_for_missing_sample, **col_options)
-        output.save_data(main_arguments.output)
+        collocated = data.collocated_onto(sample_data, how=col_name, kernel=kernel,
+                                          missing_data_for_missing_sample=missing_data_for_missing_sample,
+                                          **col_options)
+        if output is None:
+            output = collocated
+        else:
+            output.extend(collocated)
+
+    # All of the datagroups go in the one output file
+    output.save_data(main_arguments.output)
 
 
 def subset_cmd(main_arguments):
-- 
2.43.0


From a7f63d165704fbf9cf994f3618b2bad61d00220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:50 +0000
Subject: [PATCH 090/125] fix: say in the history of collapsed data which files
 it is from

---
 cis/data_io/gridded_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index e8e6c53..38ae249 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -664,13 +664,13 @@ def _collapse_gridded(data, coords, kernel):
         raise ValueError("Invalid kernel specified: " + str(kernel))
 
     aggregator = GriddedCollapsor(data, coords)
-    data = aggregator(kernel_inst)
+    output = aggregator(kernel_inst)
 
     history = "Collapsed using CIS version " + __version__ + \
               "\n variables: " + str(getattr(data, "var_name", "Unknown")) + \
               "\n from files: " + str(getattr(data, "filenames", "Unknown")) + \
               "\n over coordinates: " + ", ".join(c.name() for c in coords) + \
               "\n with kernel: " + str(kernel_inst) + "."
-    data.add_history(history)
+    output.add_history(history)
 
-    return data
+    return output
-- 
2.43.0


From 7a67d0b8d9f3209f64b2ca5827748b2c2d43c253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 091/125] fix: keep the filenames of coordinates read as a
 sample

---
 cis/data_io/data_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/data_reader.py b/cis/data_io/data_reader.py
index 729a4e8..63dd14f 100644
--- a/cis/data_io/data_reader.py
+++ b/cis/data_io/data_reader.py
@@ -191,4 +191,6 @@ class DataReader(object):
         # if filenames is not a list, make it a list of 1 element
         filenames = listify(filenames)
 
-        return self._get_coords_func(filenames, product)
+        coords = self._get_coords_func(filenames, product)
+        coords.filenames = filenames
+        return coords
-- 
2.43.0


From 136985171455604fc1a438d8b6ff57ef213cefbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:43 +0000
Subject: [PATCH 092/125] fix: write statistics of data without any points in
 common

---
 cis/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/stats.py b/cis/stats.py
index eaa4e48..b19ca75 100644
--- a/cis/stats.py
+++ b/cis/stats.py
@@ -423,7 +423,9 @@ class StatsAnalyzer(object):
 
         :return: List of StatisticsResults
         """
-        grad, intercept, r, p, stderr = scipy.stats.mstats.linregress(self._data1, self._data2)
+        result = scipy.stats.mstats.linregress(self._data1, self._data2)
+        # There isn't any value when there are no points which are non-missing in both datasets
+        grad, intercept, r, p, stderr = [numpy.nan if value is None else value for value in result]
         return [LinearRegressionGradient(grad),
                 LinearRegressionIntercept(intercept),
                 LinearRegressionRValue(r),
-- 
2.43.0


From cc70d7c1b18cad55df7bdec1bb928e27b78d246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:47 +0000
Subject: [PATCH 093/125] fix: plot gridded data against the axes asked for,
 whichever way around its dimensions are

---
 cis/plotting/genericplot.py | 56 +++++++++++--------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index b1aaece..f1437bc 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -195,8 +195,11 @@ class Generic2DPlot(APlot):
         if isinstance(data_object, Cube):
             x = self.xaxis.points if self.MODE == POINT_MODE else self.xaxis.contiguous_bounds()
             y = self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds()
+            # The x axis is the last dimension of an array which is plotted - so transpose the data if it isn't
+            transpose = data_object.ndim == 2 and (data_object.coord_dims(self.xaxis) == (0,) or
+                                                   data_object.coord_dims(self.yaxis) == (1,))
             # We need to do some more unpacking, and possibly meshgridding for gridded data
-            data, x, y = self._cube_manipulation(data_object, x, y)
+            data, x, y = self._cube_manipulation(data_object, x, y, transpose)
         else:
             x = self.xaxis.points
             y = self.yaxis.points
@@ -210,62 +213,35 @@ class Generic2DPlot(APlot):
         return data, x, y
 
     @staticmethod
-    def _cube_manipulation(cube, x, y):
+    def _cube_manipulation(cube, x, y, transpose=False):
         """
         Optionally transpose the data and make a mesh-grid, taking into account auxilliary coordinates
-        A lot of this logic closely follows that used in iris.qplt.
 
         :param Cube cube: An iris Cube
         :param NDarray x: a numpy array of x points
         :param NDarray y: a numpy array of y points
+        :param bool transpose: Whether the x axis is the first dimension of the cube
         :return: data, x, and y and as numpy arrays
         """
-        import iris.plot as iplt
-        import iris
         from cartopy.util import add_cyclic_point
         import numpy as np
 
         no_of_dims = len(cube.shape)
         data = cube.data
 
-        plot_defn = iplt._get_plot_defn(cube, iris.coords.POINT_MODE, ndims=no_of_dims)
-        if plot_defn.transpose:
+        if transpose:
             data = data.T
             x = x.T
             y = y.T
 
-        # Check for auxiliary coordinates.
-        aux_coords = False
-        for coord in cube[0].coords(dim_coords=False):
-            aux_coords = True
         if no_of_dims == 2:
-            # If we have found some auxiliary coordinates in the data and the shape of x data or y data is the same as
-            # data assume we have a hybrid coordinate (which is two dimensional b nature. Perhaps need a more robust
-            # method for detecting this.
-            if aux_coords and (data.shape == x.shape or data.shape == y.shape):
-                # Work out which set of data needs expanding to match the coordinates of the others. Note there can only
-                # ever be one hybrid coordinate axis.
-                if y.shape == data.shape:
-                    if y[:, 0].shape == x.shape:
-                        x, _y = np.meshgrid(x, y[0, :])
-                    elif y[0, :].shape == x.shape:
-                        x, _y = np.meshgrid(x, y[:, 0])
-                elif x.shape == data.shape:
-                    if x[:, 0].shape == y.shape:
-                        y, _x = np.meshgrid(y, x[0, :])
-                    elif x[0, :].shape == y.shape:
-                        y, _x = np.meshgrid(y, x[:, 0])
-            else:
-                if len(x) == data.shape[-1]:
-                    try:
-                        data, x = add_cyclic_point(data, x)
-                    except ValueError as e:
-                        logging.warn('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
-                    x, y = np.meshgrid(x, y)
-                elif len(y) == data.shape[-1]:
-                    try:
-                        data, y = add_cyclic_point(data, y)
-                    except ValueError as e:
-                        logging.warn('Unable to add cyclic data point for y-axis. Error was: ' + e.args[0])
-                    y, x = np.meshgrid(y, x)
+            if x.ndim == 2 or y.ndim == 2:
+                # We have a hybrid coordinate (which is two dimensional by nature), so expand the other to match
+                x, y = np.broadcast_arrays(x, y if y.ndim == 2 else y[:, np.newaxis])
+            elif (len(y), len(x)) == data.shape:
+                try:
+                    data, x = add_cyclic_point(data, x)
+                except ValueError as e:
+                    logging.warning('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
+                x, y = np.meshgrid(x, y)
         return data, x, y
-- 
2.43.0


From 4fcbe2486e0023938c7384c5b8922448228649c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:06 +0000
Subject: [PATCH 094/125] fix: close the gap of plots only for global
 longitudes

---
 cis/plotting/genericplot.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index f1437bc..56df8e6 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -199,7 +199,7 @@ class Generic2DPlot(APlot):
             transpose = data_object.ndim == 2 and (data_object.coord_dims(self.xaxis) == (0,) or
                                                    data_object.coord_dims(self.yaxis) == (1,))
             # We need to do some more unpacking, and possibly meshgridding for gridded data
-            data, x, y = self._cube_manipulation(data_object, x, y, transpose)
+            data, x, y = self._cube_manipulation(data_object, x, y, transpose, self._is_global(self.xaxis))
         else:
             x = self.xaxis.points
             y = self.yaxis.points
@@ -213,7 +213,19 @@ class Generic2DPlot(APlot):
         return data, x, y
 
     @staticmethod
-    def _cube_manipulation(cube, x, y, transpose=False):
+    def _is_global(coord):
+        """
+        :param Coord coord: A coordinate of a cube
+        :return: True if it is a longitude which goes all around the globe
+        """
+        import numpy as np
+        if coord.standard_name != 'longitude' or coord.ndim != 1 or len(coord.points) < 2:
+            return False
+        steps = np.diff(coord.points)
+        return bool(np.allclose(steps, steps[0]) and np.isclose(abs(steps[0]) * len(coord.points), 360.0))
+
+    @staticmethod
+    def _cube_manipulation(cube, x, y, transpose=False, is_global=False):
         """
         Optionally transpose the data and make a mesh-grid, taking into account auxilliary coordinates
 
@@ -221,6 +233,7 @@ class Generic2DPlot(APlot):
         :param NDarray x: a numpy array of x points
         :param NDarray y: a numpy array of y points
         :param bool transpose: Whether the x axis is the first dimension of the cube
+        :param bool is_global: Whether the x axis goes all around the globe (so that the gap can be closed)
         :return: data, x, and y and as numpy arrays
         """
         from cartopy.util import add_cyclic_point
@@ -239,9 +252,10 @@ class Generic2DPlot(APlot):
                 # We have a hybrid coordinate (which is two dimensional by nature), so expand the other to match
                 x, y = np.broadcast_arrays(x, y if y.ndim == 2 else y[:, np.newaxis])
             elif (len(y), len(x)) == data.shape:
-                try:
-                    data, x = add_cyclic_point(data, x)
-                except ValueError as e:
-                    logging.warning('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
+                if is_global:
+                    try:
+                        data, x = add_cyclic_point(data, x)
+                    except ValueError as e:
+                        logging.warning('Unable to add cyclic data point for x-axis. Error was: ' + e.args[0])
                 x, y = np.meshgrid(x, y)
         return data, x, y
-- 
2.43.0


From 98f79732c657f85148ca26494b9234b86c2c0618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 095/125] fix: guess axes along both of the dimensions of
 gridded data

---
 cis/plotting/plot.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 36aac20..871031d 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -86,6 +86,32 @@ def _try_coord(data, coord_dict):
     return coord
 
 
+def _spans_only(d, coord, dim):
+    """
+    :param CommonData d: Some data
+    :param Coord coord: One of its coordinates
+    :param int dim: One of its dimensions
+    :return: True if the coord is one dimensional, and that dimension is the one given
+    """
+    coord_dims = getattr(d, 'coord_dims', None)
+    return coord_dims is not None and coord_dims(coord) == (dim,)
+
+
+def _other_axis(d, coord):
+    """
+    Guess the Coord for one axis of two-dimensional (gridded) data given the one on the other axis
+    :param CommonData d: The data
+    :param Coord coord: The Coord on the other axis
+    :return Coord: A Coord along the other dimension of the data, or None if there isn't one
+    """
+    for dim in (0, 1):
+        if _spans_only(d, coord, dim):
+            for c in d.coords():
+                if _spans_only(d, c, 1 - dim):
+                    return c
+    return None
+
+
 def get_axis(d, axis, name=None):
     """
     Guess the best Coord to use for the axis
@@ -105,7 +131,7 @@ def get_axis(d, axis, name=None):
                     coord = c
                     break
             elif axis == 'Y' and len(d.shape) > 1:
-                if c.shape[1] == d.shape[1]:
+                if (c.shape[1] == d.shape[1]) if len(c.shape) > 1 else _spans_only(d, c, 1):
                     coord = c
                     break
 
@@ -352,6 +378,14 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
 
     yaxis_coord = get_axis(data, 'Y', yaxis)
 
+    if len(data.shape) == 2 and not isinstance(xaxis, CommonData) and \
+            any(_spans_only(data, xaxis_coord, dim) and _spans_only(data, yaxis_coord, dim) for dim in (0, 1)):
+        # The guesses for the two axes aren't independent, there should be one for each of the dimensions
+        if yaxis is None:
+            yaxis_coord = _other_axis(data, xaxis_coord) or yaxis_coord
+        elif xaxis is None:
+            xaxis_coord = _other_axis(data, yaxis_coord) or xaxis_coord
+
     how = how or data._get_default_plot_type(xaxis_coord.standard_name == 'longitude'
                                              and yaxis_coord.standard_name == 'latitude')
 
-- 
2.43.0


From 39a4bad7e76885e46106cdc4bad5a00d4ef8f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 096/125] fix: show the right dates on the x axis of 2D plots

---
 cis/plotting/genericplot.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index 56df8e6..febe9ad 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -74,6 +74,15 @@ class APlot(object):
         set_log_scales(ax, logx, logy, True)
 
 
+def _convert_time(coord, values):
+    """
+    Convert the values of a time coordinate to the matplotlib datetime, leave those of any other coordinate as they are
+    """
+    if coord.standard_name == 'time':
+        return coord.units.convert(values, 'days since 1970-01-01 00:00:00')
+    return values
+
+
 class GenericPlot(APlot):
 
     def __init__(self, packed_data, *args, **kwargs):
@@ -85,11 +94,7 @@ class GenericPlot(APlot):
 
         logging.debug("Unpacking the data items")
 
-        if self.xaxis.standard_name == 'time':
-            # Convert to matplotlib datetime
-            self.x = self.xaxis.units.convert(self.xaxis.points, 'days since 1970-01-01 00:00:00')
-        else:
-            self.x = self.xaxis.points
+        self.x = _convert_time(self.xaxis, self.xaxis.points)
 
         self.data = packed_data.data
 
@@ -193,7 +198,8 @@ class Generic2DPlot(APlot):
         import logging
 
         if isinstance(data_object, Cube):
-            x = self.xaxis.points if self.MODE == POINT_MODE else self.xaxis.contiguous_bounds()
+            x = _convert_time(self.xaxis,
+                              self.xaxis.points if self.MODE == POINT_MODE else self.xaxis.contiguous_bounds())
             y = self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds()
             # The x axis is the last dimension of an array which is plotted - so transpose the data if it isn't
             transpose = data_object.ndim == 2 and (data_object.coord_dims(self.xaxis) == (0,) or
@@ -201,7 +207,7 @@ class Generic2DPlot(APlot):
             # We need to do some more unpacking, and possibly meshgridding for gridded data
             data, x, y = self._cube_manipulation(data_object, x, y, transpose, self._is_global(self.xaxis))
         else:
-            x = self.xaxis.points
+            x = _convert_time(self.xaxis, self.xaxis.points)
             y = self.yaxis.points
             data = data_object.data
 
-- 
2.43.0


From 0dee67dc96d6492ace54fa0eb81cf1b94dda22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 097/125] fix: allow coordinates as the x axis of comparative
 plots

---
 cis/plotting/comparativescatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/plotting/comparativescatter.py b/cis/plotting/comparativescatter.py
index 0de8de5..571f1f4 100644
--- a/cis/plotting/comparativescatter.py
+++ b/cis/plotting/comparativescatter.py
@@ -14,7 +14,8 @@ class ComparativeScatter(APlot):
         super(ComparativeScatter, self).__init__(packed_data, *mplargs, **mplkwargs)
 
         logging.debug("Unpacking the data items")
-        self.x, self.y = getattr(self.xaxis, 'points', None) or self.xaxis.data, packed_data.data
+        self.x = self.xaxis.points if hasattr(self.xaxis, 'points') else self.xaxis.data
+        self.y = packed_data.data
 
         self.label = packed_data.long_name if self.label is None else self.label
 
-- 
2.43.0


From f0a55aa95347217deb950fe8ec313fe729a17b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 098/125] fix: apply the vstep option to contours

---
 cis/plotting/contourplot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cis/plotting/contourplot.py b/cis/plotting/contourplot.py
index d4348df..fb2613d 100644
--- a/cis/plotting/contourplot.py
+++ b/cis/plotting/contourplot.py
@@ -19,13 +19,15 @@ class ContourPlot(Generic2DPlot):
         :param dict cont_label_kwargs: A dictionary of contour label keywork args (e.g. format)
         :param kwargs: Other keyword args to pass to plot
         """
-        super(ContourPlot, self).__init__(packed_data, *args, **kwargs)
+        import numpy as np
+        super(ContourPlot, self).__init__(packed_data, vstep=vstep, *args, **kwargs)
         self.filled = False
         if contlevels:
             self.levels = contlevels
         elif self.vstep:
-            self.levels = (kwargs.get('vmax', self.data.max()) -
-                           kwargs.get('vmin', self.data.min())) / vstep
+            vmin = kwargs['vmin'] if kwargs.get('vmin') is not None else self.data.min()
+            vmax = kwargs['vmax'] if kwargs.get('vmax') is not None else self.data.max()
+            self.levels = np.arange(vmin, vmax + vstep, vstep)
         else:
             self.levels = contnlevels
 
-- 
2.43.0


From e4e57d40d5faf0f2c8af00d891f003c1dd67de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 099/125] fix: apply the edgecolor option to scatter plots

---
 cis/plotting/comparativescatter.py | 2 +-
 cis/plotting/scatterplot.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/comparativescatter.py b/cis/plotting/comparativescatter.py
index 571f1f4..8b64309 100644
--- a/cis/plotting/comparativescatter.py
+++ b/cis/plotting/comparativescatter.py
@@ -30,7 +30,7 @@ class ComparativeScatter(APlot):
             self.mplkwargs["marker"] = self.itemstyle
 
         if self.edgecolor is not None:
-            self.mplkwargs["edgecolors"] = self.edgecolor
+            self.mplkwargs["markeredgecolor"] = self.edgecolor
 
         if self.color is not None:
             self.mplkwargs["c"] = self.color
diff --git a/cis/plotting/scatterplot.py b/cis/plotting/scatterplot.py
index 901167a..c58790a 100644
--- a/cis/plotting/scatterplot.py
+++ b/cis/plotting/scatterplot.py
@@ -18,7 +18,7 @@ class ScatterPlot(GenericPlot):
             self.mplkwargs["marker"] = self.itemstyle
 
         if self.edgecolor is not None:
-            self.mplkwargs["edgecolors"] = self.edgecolor
+            self.mplkwargs["markeredgecolor"] = self.edgecolor
 
         if self.color is not None:
             self.mplkwargs["c"] = self.color
-- 
2.43.0


From 3496dfbb8409831acb3208f2203025ef6778181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 100/125] fix: log scale colours of 2D histograms and of plots
 with limits

---
 cis/plotting/genericplot.py | 11 +++++++++--
 cis/plotting/histogram2d.py |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index febe9ad..c8f4d90 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -67,6 +67,14 @@ class APlot(object):
         from cartopy.crs import _RectangularProjection
         return self.is_map() and isinstance(ax.projection, _RectangularProjection)
 
+    def use_log_norm(self):
+        """
+        Log scale the colours, between vmin and vmax if they were given
+        """
+        from matplotlib.colors import LogNorm
+        # Matplotlib doesn't allow the limits to be given along with a norm, they have to be part of it
+        self.mplkwargs["norm"] = LogNorm(vmin=self.mplkwargs.pop('vmin', None), vmax=self.mplkwargs.pop('vmax', None))
+
     def set_log_scales(self, ax, logx, logy):
         """
         Optionally log-scale one or both of the axis. Default is to rescale after logging.
@@ -158,8 +166,7 @@ class Generic2DPlot(APlot):
         self.coastlinescolour = coastlinescolour
 
         if self.logv:
-            from matplotlib.colors import LogNorm
-            self.mplkwargs["norm"] = LogNorm()
+            self.use_log_norm()
 
     def __call__(self, ax):
         from .plot import add_color_bar
diff --git a/cis/plotting/histogram2d.py b/cis/plotting/histogram2d.py
index a394d24..fb2c865 100644
--- a/cis/plotting/histogram2d.py
+++ b/cis/plotting/histogram2d.py
@@ -35,6 +35,9 @@ class Histogram2D(ComparativeScatter):
         self.colourbar = colourbar
         self.cbarlabel = cbarlabel or "Frequency"
 
+        if self.logv:
+            self.use_log_norm()
+
     def __call__(self, ax):
         """
         Plots a 2d histogram.
-- 
2.43.0


From 211150b4b3575cbbb9234b41a2a082f421d279bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 101/125] fix: invert only axes with pressures, once

---
 cis/plotting/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 871031d..c4ce645 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -359,7 +359,7 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
     from cis.data_io.common_data import CommonData
     from cis.data_io.gridded_data import GriddedData
     from cis.utils import squeeze
-    from cis.plotting.genericplot import GenericPlot
+    from cis.plotting.genericplot import GenericPlot, Generic2DPlot
 
     # Remove any extra gridded data dimensions
     if isinstance(data, GriddedData):
@@ -427,7 +427,9 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
     if xaxis_coord.standard_name == 'time' and how not in ['comparativescatter', 'histogram2d', 'histogram']:
         set_x_axis_as_time(ax)
 
-    if yaxis_coord.standard_name == 'air_pressure':
+    # If the pressure is on the y-axis (rather than the data) then this should be decreasing - for each of the layers
+    if yaxis_coord.standard_name == 'air_pressure' and not ax.yaxis_inverted() and \
+            (isinstance(plot, Generic2DPlot) or (data is yaxis_coord and how != 'histogram')):
         ax.invert_yaxis()
 
     return plot, ax
-- 
2.43.0


From 67a86b4782196a1d5ac5a895329fb9baae79e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 102/125] fix: apply limits and steps to inverted and time axes

---
 cis/plotting/formatted_plot.py | 42 +++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index a0f9871..9d9d1f4 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -85,26 +85,46 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
     ax.set_yticks(yticks)
 
 
-def apply_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=None, ystep=None):
+def get_ticks(limits, step):
     """
-    Applies the specified limits to the given axis
+    :param tuple limits: The limits of an axis, of which the first is the larger one for an inverted axis
+    :param float or timedelta step: The step of the ticks
+    :return: The ticks for the axis
     """
     import numpy as np
+    from datetime import timedelta
+
+    if isinstance(step, timedelta):
+        # The units of a time axis are days
+        step = step.total_seconds() / (24.0 * 60.0 * 60.0)
+
+    return np.arange(min(limits), max(limits) + step, step)
 
+
+def apply_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=None, ystep=None):
+    """
+    Applies the specified limits to the given axis
+    """
     ax.set_xlim(xmin=xmin, xmax=xmax)
-    ax.set_ylim(ymin=ymin, ymax=ymax)
 
-    if xstep is not None:
-        min_val, max_val = ax.get_xlim()
-        ticks = np.arange(min_val, max_val + xstep, xstep)
+    if ax.yaxis_inverted():
+        # Keep the axis (e.g. of pressure) the way around it is
+        if ymin is not None and ymax is not None:
+            ymin, ymax = min(ymin, ymax), max(ymin, ymax)
+        ax.set_ylim(bottom=ymax, top=ymin)
+    else:
+        ax.set_ylim(ymin=ymin, ymax=ymax)
 
-        ax.set_xticks(ticks)
+    # Matplotlib extends the limits to any ticks which are outside of them, so these have to be set again
+    if xstep is not None:
+        limits = ax.get_xlim()
+        ax.set_xticks(get_ticks(limits, xstep))
+        ax.set_xlim(limits)
 
     if ystep is not None:
-        min_val, max_val = ax.get_ylim()
-        ticks = np.arange(min_val, max_val + ystep, ystep)
-
-        ax.set_yticks(ticks)
+        limits = ax.get_ylim()
+        ax.set_yticks(get_ticks(limits, ystep))
+        ax.set_ylim(limits)
 
 
 def get_x_wrap_start(data_list, user_xmin=None):
-- 
2.43.0


From ba1c3e5ced4aa499b0c53f55df93662a8f2438af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 103/125] fix: apply limits of maps in the right coordinates

---
 cis/plotting/formatted_plot.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index 9d9d1f4..31cfbda 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -49,8 +49,6 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
     from cis.plotting.plot import get_best_map_ticks
     import numpy as np
 
-    transform = ccrs.PlateCarree(360)
-
     global_tolerance = 0.8
 
     # We can't optionally pass in certain bounds to set_extent so we need to pull out the existing ones and only
@@ -61,12 +59,29 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
             ((y2 - y1 > (ax.projection.y_limits[1] - ax.projection.y_limits[0]) * global_tolerance) or
                  (x2 - x1 > (ax.projection.x_limits[1] - ax.projection.x_limits[0]) * global_tolerance)):
         ax.set_global()
+    elif isinstance(ax.projection, ccrs.RotatedPole):
+        # The sides of the region aren't lines of constant longitude or latitude
+        x1, x2, y1, y2 = ax.get_extent(crs=ccrs.PlateCarree())
+        ax.set_extent([x1 if xmin is None else xmin, x2 if xmax is None else xmax,
+                       y1 if ymin is None else ymin, y2 if ymax is None else ymax], crs=ccrs.PlateCarree())
     else:
-        xmin = xmin if xmin is not None else x1
-        xmax = xmax if xmax is not None else x2
-        ymin = ymin if ymin is not None else y1
-        ymax = ymax if ymax is not None else y2
-        ax.set_extent([xmin, xmax, ymin, ymax], crs=transform)
+        # The existing extent is in the coordinates of the projection
+        if xmin is not None:
+            x1 = ax.projection.transform_point(xmin, 0.0, ccrs.PlateCarree())[0]
+            if np.isclose(x1, ax.projection.x_limits[1]):
+                x1 = ax.projection.x_limits[0]
+        if xmax is not None:
+            x2 = ax.projection.transform_point(xmax, 0.0, ccrs.PlateCarree())[0]
+            if np.isclose(x2, ax.projection.x_limits[0]):
+                x2 = ax.projection.x_limits[1]
+        if ymin is not None:
+            y1 = ax.projection.transform_point(0.0, ymin, ccrs.PlateCarree())[1]
+        if ymax is not None:
+            y2 = ax.projection.transform_point(0.0, ymax, ccrs.PlateCarree())[1]
+        if x1 >= x2:
+            # The region goes past the edge of the map
+            x1, x2 = ax.projection.x_limits
+        ax.set_extent([x1, x2, y1, y2], crs=ax.projection)
 
     # Get the updated extent
     x1, x2, y1, y2 = ax.get_extent()
@@ -84,6 +99,10 @@ def apply_map_axis_limits(ax, xmin=None, xmax=None, xstep=None, ymin=None, ymax=
     ax.set_xticks(xticks)
     ax.set_yticks(yticks)
 
+    if any(lim is not None for lim in (xmin, xmax, ymin, ymax)):
+        # Setting the ticks extends the map to those which are outside of it
+        ax.set_extent([x1, x2, y1, y2], crs=ax.projection)
+
 
 def get_ticks(limits, step):
     """
-- 
2.43.0


From 60606f51fec3ec7404735633314c75518f8cc76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:15 +0000
Subject: [PATCH 104/125] fix: use the data points asked for in Taylor diagrams

---
 cis/plotting/taylor.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cis/plotting/taylor.py b/cis/plotting/taylor.py
index d95a1f9..c7a94ac 100644
--- a/cis/plotting/taylor.py
+++ b/cis/plotting/taylor.py
@@ -79,7 +79,7 @@ class Taylor(APlot):
         # xaxis and yaxis are None in this special case
         super(Taylor, self).__init__(packed_data, None, None, *args, **kwargs)
 
-        self.labels = [l or d.name() for l, d in zip(labels, packed_data)]
+        self.labels = [l or d.name() for l, d in zip(labels or repeat(None), packed_data)]
         self.colors = colors
         self.extend = extend
         self.fold = fold
@@ -103,11 +103,10 @@ class Taylor(APlot):
         elif self.bias is not None and self.bias != 'flag':
             raise ValueError('Invalid bias argument specified, should be either colo[u]r, size or flag')
 
-        if logv:
-            packed_data = [np.ma.log(d.data) for d in packed_data]
+        arrays = [np.ma.log(d.data) if logv else d.data for d in packed_data]
 
-        means = np.ma.array([np.ma.mean(d.data) for d in packed_data])
-        sigmas = np.ma.array([np.ma.std(d.data, ddof=1) for d in packed_data])
+        means = np.ma.array([np.ma.mean(a) for a in arrays])
+        sigmas = np.ma.array([np.ma.std(a, ddof=1) for a in arrays])
 
         logging.info("Means: {}".format(means))
         # Treat the first array as the reference
@@ -118,7 +117,7 @@ class Taylor(APlot):
         self.gammas = sigmas / ref_sigma
 
         # Calculate the correlations against the first array
-        self.corrs = np.ma.array([np.ma.corrcoef(d.data, packed_data[0].data)[0, 1] for d in packed_data])
+        self.corrs = np.ma.array([np.ma.corrcoef(a.flatten(), arrays[0].flatten())[0, 1] for a in arrays])
         self.corrs = np.ma.minimum(np.ma.maximum(self.corrs, -1.), 1.)
 
         if markers is None:
-- 
2.43.0


From 8b29201e5f876d5a7e4c672aac01cbac6ab4bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 105/125] fix: allow the type of a single layer

---
 cis/plotting/formatted_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cis/plotting/formatted_plot.py b/cis/plotting/formatted_plot.py
index 31cfbda..6b29722 100644
--- a/cis/plotting/formatted_plot.py
+++ b/cis/plotting/formatted_plot.py
@@ -222,6 +222,7 @@ class Plotter(object):
         else:
             if 'layer_opts' in kwargs:
                 kwargs.update(kwargs.pop('layer_opts')[0])
+                type = kwargs.pop('type', type)
             plot, self.ax = basic_plot(data, how=type, *args, **kwargs)
 
         self.fig = self.ax.get_figure()
-- 
2.43.0


From 9b2832ebcfb4d219ef70080c78898c1bf90eb2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 106/125] fix: warn about missing coastlines when there is no
 connection

---
 cis/plotting/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index c4ce645..4b2367f 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -183,10 +183,10 @@ def _test_natural_earth_available():
     :return: Can we access natural earth?
     """
     from cartopy.io.shapereader import natural_earth
-    from six.moves.urllib.error import HTTPError
+    from six.moves.urllib.error import URLError
     try:
         natural_earth_available = natural_earth()
-    except HTTPError:
+    except URLError:
         natural_earth_available = False
     return natural_earth_available
 
-- 
2.43.0


From 0d1e7dbfe0d08155b1098bb480baaefbfbdeae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 107/125] fix: keep the labels of time axes above a colour bar

---
 cis/plotting/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 4b2367f..b949612 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -163,8 +163,10 @@ def set_x_axis_as_time(ax):
 
     # Setup conversion of our standard time
     ax.xaxis.set_major_formatter(ticker.FuncFormatter(format_datetime))
-    # Then just let matplotlib format it nicely...
-    ax.get_figure().autofmt_xdate()
+    # Then rotate the labels - not using autofmt_xdate since that hides the labels of plots above a colour bar
+    for label in ax.get_xticklabels():
+        label.set_horizontalalignment('right')
+        label.set_rotation(30)
 
 
 def _get_extent(ax):
-- 
2.43.0


From cfacd5983a9c26a5e05bccf11bd155ec02c683c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:35 +0000
Subject: [PATCH 108/125] fix: allow the bias in a Taylor diagram to be shown
 as a size

---
 cis/plotting/taylor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/plotting/taylor.py b/cis/plotting/taylor.py
index c7a94ac..03342cd 100644
--- a/cis/plotting/taylor.py
+++ b/cis/plotting/taylor.py
@@ -203,7 +203,7 @@ class Taylor(APlot):
                                                               (cycle(self.colors) if self.colors
                                                                else repeat(None))):
             if self.bias == 'size':
-                marker = self.markers[((stdbias > 0.) - (stdbias < 0.)) + 1]
+                marker = self.markers[int(stdbias > 0.) - int(stdbias < 0.) + 1]
                 size = min(max((abs(stdbias) - self.minstdbias) / self.stdbiasrange, 0.), 1.)
                 size = self.itemwidth * (0.25 + 1.75 * size)
 
-- 
2.43.0


From b220665561371dbe4046e59251ad42c1a2dd3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:56 +0000
Subject: [PATCH 109/125] fix: show dates on the y axis too

---
 cis/plotting/genericplot.py |  8 +++++---
 cis/plotting/plot.py        | 27 ++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/cis/plotting/genericplot.py b/cis/plotting/genericplot.py
index c8f4d90..a181caa 100644
--- a/cis/plotting/genericplot.py
+++ b/cis/plotting/genericplot.py
@@ -104,7 +104,8 @@ class GenericPlot(APlot):
 
         self.x = _convert_time(self.xaxis, self.xaxis.points)
 
-        self.data = packed_data.data
+        # The data may be a (time) coordinate too
+        self.data = _convert_time(packed_data, packed_data.data) if hasattr(packed_data, 'points') else packed_data.data
 
         self.mplkwargs['label'] = self.label or packed_data.name()
         self.xlabel, self.ylabel = get_label(self.xaxis), get_label(packed_data)
@@ -207,7 +208,8 @@ class Generic2DPlot(APlot):
         if isinstance(data_object, Cube):
             x = _convert_time(self.xaxis,
                               self.xaxis.points if self.MODE == POINT_MODE else self.xaxis.contiguous_bounds())
-            y = self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds()
+            y = _convert_time(self.yaxis,
+                              self.yaxis.points if self.MODE == POINT_MODE else self.yaxis.contiguous_bounds())
             # The x axis is the last dimension of an array which is plotted - so transpose the data if it isn't
             transpose = data_object.ndim == 2 and (data_object.coord_dims(self.xaxis) == (0,) or
                                                    data_object.coord_dims(self.yaxis) == (1,))
@@ -215,7 +217,7 @@ class Generic2DPlot(APlot):
             data, x, y = self._cube_manipulation(data_object, x, y, transpose, self._is_global(self.xaxis))
         else:
             x = _convert_time(self.xaxis, self.xaxis.points)
-            y = self.yaxis.points
+            y = _convert_time(self.yaxis, self.yaxis.points)
             data = data_object.data
 
         logging.debug("Shape of x: " + str(x.shape))
diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index b949612..8998f34 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -140,9 +140,10 @@ def get_axis(d, axis, name=None):
     return coord
 
 
-def set_x_axis_as_time(ax):
+def _set_axis_as_time(axis):
     """
-    Nicely format a time axis
+    Show the dates on a time axis
+    :param matplotlib.axis.Axis axis: The x or y axis of a plot
     """
     from matplotlib import ticker
     from matplotlib.dates import num2date
@@ -150,8 +151,8 @@ def set_x_axis_as_time(ax):
     def format_datetime(x, pos=None):
         # use iosformat rather than strftime as strftime can't handle dates before 1900 - the output is the same
         date_time = num2date(x)
-        day_min, day_max = ax.get_xlim()
-        day_range = day_max - day_min
+        day_min, day_max = axis.get_view_interval()
+        day_range = abs(day_max - day_min)
         if day_range < 1 and date_time.second == 0:
             return "%02d" % date_time.hour + ':' + "%02d" % date_time.minute
         elif day_range < 1:
@@ -162,7 +163,14 @@ def set_x_axis_as_time(ax):
             return date_time.isoformat(' ')
 
     # Setup conversion of our standard time
-    ax.xaxis.set_major_formatter(ticker.FuncFormatter(format_datetime))
+    axis.set_major_formatter(ticker.FuncFormatter(format_datetime))
+
+
+def set_x_axis_as_time(ax):
+    """
+    Nicely format a time axis
+    """
+    _set_axis_as_time(ax.xaxis)
     # Then rotate the labels - not using autofmt_xdate since that hides the labels of plots above a colour bar
     for label in ax.get_xticklabels():
         label.set_horizontalalignment('right')
@@ -429,9 +437,14 @@ def basic_plot(data, how=None, ax=None, xaxis=None, yaxis=None, projection=None,
     if xaxis_coord.standard_name == 'time' and how not in ['comparativescatter', 'histogram2d', 'histogram']:
         set_x_axis_as_time(ax)
 
+    # Whether the y axis is that coordinate, rather than the data
+    has_yaxis = isinstance(plot, Generic2DPlot) or (data is yaxis_coord and how != 'histogram')
+
+    if yaxis_coord.standard_name == 'time' and has_yaxis:
+        _set_axis_as_time(ax.yaxis)
+
     # If the pressure is on the y-axis (rather than the data) then this should be decreasing - for each of the layers
-    if yaxis_coord.standard_name == 'air_pressure' and not ax.yaxis_inverted() and \
-            (isinstance(plot, Generic2DPlot) or (data is yaxis_coord and how != 'histogram')):
+    if yaxis_coord.standard_name == 'air_pressure' and has_yaxis and not ax.yaxis_inverted():
         ax.invert_yaxis()
 
     return plot, ax
-- 
2.43.0


From a03de2821d264a4ea27b6a66c02d1c8f377b78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:44 +0000
Subject: [PATCH 110/125] fix: Attach altitude and pressure fields to their own
 dimensions of gridded data, in their own units

---
 cis/data_io/products/gridded_NetCDF.py | 32 +++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/products/gridded_NetCDF.py b/cis/data_io/products/gridded_NetCDF.py
index b30c69f..7bacb1b 100644
--- a/cis/data_io/products/gridded_NetCDF.py
+++ b/cis/data_io/products/gridded_NetCDF.py
@@ -146,10 +146,34 @@ class NetCDF_Gridded(AProduct):
         """
         from iris.coords import AuxCoord
 
+        def _get_dim_name(a_cube, dim):
+            coords = a_cube.coords(dimensions=dim, dim_coords=True)
+            return coords[0].var_name or coords[0].name() if coords else None
+
+        def _get_dims(aux_cube):
+            # The field might only have some of the dimensions of the cube, or have them in a different order
+            cube_dims = [_get_dim_name(cube, dim) for dim in range(cube.ndim)]
+            dims = []
+            for dim in range(aux_cube.ndim):
+                name = _get_dim_name(aux_cube, dim)
+                if name is not None:
+                    dims.append(cube_dims.index(name))
+                elif aux_cube.ndim == cube.ndim:
+                    # Anonymous dimensions can only be recognised by their position
+                    dims.append(dim)
+                else:
+                    raise ValueError("Unable to determine the dimensions of {}".format(aux_cube.name()))
+            return dims
+
+        def _convert_units(coord, units):
+            # Assume that the units are already the right ones if they aren't known
+            if units.is_convertible(coord.units):
+                coord.points = units.convert(coord.points, coord.units)
+
         def _make_aux_coord_and_dims_from_geopotential(g_cube):
             from scipy.constants import g
             points = g_cube.data / g
-            dims = list(range(len(g_cube.shape)))
+            dims = _get_dims(g_cube)
             coord = AuxCoord(points=points,
                              standard_name='altitude',
                              long_name='Geopotential height at layer midpoints',
@@ -159,22 +183,24 @@ class NetCDF_Gridded(AProduct):
             return coord, dims
 
         def _make_aux_coord_and_dims_from_geopotential_height(g_ht_cube):
-            dims = list(range(len(g_ht_cube.shape)))
+            dims = _get_dims(g_ht_cube)
             coord = AuxCoord(points=g_ht_cube.data,
                              standard_name='altitude',
                              long_name='Geopotential height at layer midpoints',
                              var_name='altitude',
                              units='meter',
                              attributes={'positive': 'up'})
+            _convert_units(coord, g_ht_cube.units)
             return coord, dims
 
         def _make_aux_coord_and_dims_from_air_pressure(aps_cube):
-            dims = list(range(len(aps_cube.shape)))
+            dims = _get_dims(aps_cube)
             coord = AuxCoord(points=aps_cube.data,
                              standard_name='air_pressure',
                              long_name='Air Pressure',
                              var_name='air_pressure',
                              units='Pa')
+            _convert_units(coord, aps_cube.units)
             return coord, dims
 
         aux_coord_creation_functions = {'geopotential': _make_aux_coord_and_dims_from_geopotential,
-- 
2.43.0


From 92964fc87a97ddbe499f12b6c1f6c5e102bcbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:23 +0000
Subject: [PATCH 111/125] fix: Read several HadGEM files which don't have any
 history

---
 cis/data_io/products/HadGEM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/HadGEM.py b/cis/data_io/products/HadGEM.py
index 063f6ab..23b85c8 100644
--- a/cis/data_io/products/HadGEM.py
+++ b/cis/data_io/products/HadGEM.py
@@ -15,7 +15,7 @@ class HadGEM_CONVSH(NetCDF_Gridded):
     def load_multiple_files_callback(cube, field, filename):
         from iris.util import squeeze
         # We need to remove the history field when reading multiple files so that the cubes can be properly merged
-        cube.attributes.pop('history')
+        cube.attributes.pop('history', None)
         # cube.coord(name_or_coord='Hybrid height').attributes['formula_terms'] = 'a: lev b: b orog: orog'
         # We also need to remove the length one time dimension so that the cube can be merged correctly (iris preserves
         #  the value as a scalar which then gets converted back into a full coordinate again on merge).
-- 
2.43.0


From cda954fe7309c8b2132652629ce07e5dce330e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 112/125] fix: Use the right time units for the aerosol CCI
 file with invalid times

---
 cis/data_io/products/CCI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/products/CCI.py b/cis/data_io/products/CCI.py
index 9dbf4d7..c034666 100644
--- a/cis/data_io/products/CCI.py
+++ b/cis/data_io/products/CCI.py
@@ -150,7 +150,7 @@ class Aerosol_CCI_L3(NetCDF_Gridded):
             if "201101-ESACCI" in filename:
                 # Manually fix a bugged file
                 # (201101-ESACCI-L3C_AEROSOL-AER_PRODUCTS-AATSR-ENVISAT-ADV_MOTNHLY-v2.30.nc)
-                time_bounds = [convert_time_string_to_number(s, time_coord.units)
+                time_bounds = [convert_time_string_to_number(s, ESA_TIME_UNIT)
                                for s in ("20110101T000000Z", "20110131T235959Z")]
             else:
                 raise ValueError("Bad time_coverage attribute in {}".format(filename))
-- 
2.43.0


From 46ca715282bac94117fa72862c46c4be0d2b6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:07 +0000
Subject: [PATCH 113/125] fix: Read the aerosol CCI file with invalid times
 together with others

---
 cis/data_io/products/CCI.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cis/data_io/products/CCI.py b/cis/data_io/products/CCI.py
index c034666..0d8c9f4 100644
--- a/cis/data_io/products/CCI.py
+++ b/cis/data_io/products/CCI.py
@@ -142,10 +142,10 @@ class Aerosol_CCI_L3(NetCDF_Gridded):
         """Add time coordinate"""
         from iris.coords import AuxCoord
 
-        # Pop time attributes to remove them from the cube
+        # Pop time attributes to remove them from the cube (both of them, even if the first one isn't valid)
+        time_strings = [cube.attributes.pop(att) for att in ("time_coverage_start", "time_coverage_end")]
         try:
-            time_bounds = [convert_time_string_to_number(cube.attributes.pop(att), ESA_TIME_UNIT)
-                           for att in ("time_coverage_start", "time_coverage_end")]
+            time_bounds = [convert_time_string_to_number(s, ESA_TIME_UNIT) for s in time_strings]
         except ValueError:
             if "201101-ESACCI" in filename:
                 # Manually fix a bugged file
-- 
2.43.0


From a4ef25d2ab20b6c180ccb996b98f129fdd00ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:24 +0000
Subject: [PATCH 114/125] fix: Refuse double underscores written with
 equivalent characters

---
 cis/evaluate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cis/evaluate.py b/cis/evaluate.py
index b47477f..c9b1b88 100644
--- a/cis/evaluate.py
+++ b/cis/evaluate.py
@@ -32,7 +32,9 @@ class Calculator(object):
         :return: Data object matching the type of the input data (i.e. GriddedData or UngriddedData).
         """
         import six
-        if '__' in expr:
+        import unicodedata
+        # Python normalizes any names, so there are other characters which are equivalent to an underscore
+        if '__' in unicodedata.normalize('NFKC', expr):
             raise EvaluationError("Use of functions or variables with double underscores (__) is not allowed")
         # Create list of allowed globals
         safe_globals = {module: globals()[module] for module in self.SAFE_MODULES}
-- 
2.43.0


From 1aebb1a2ed21022bc7e9e46729db01fe2ab01358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:34 +0000
Subject: [PATCH 115/125] fix: Don't use the plot type of one layer for the
 following ones

---
 cis/plotting/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cis/plotting/plot.py b/cis/plotting/plot.py
index 8998f34..18981bf 100644
--- a/cis/plotting/plot.py
+++ b/cis/plotting/plot.py
@@ -482,9 +482,9 @@ def multilayer_plot(data_list, how=None, ax=None, yaxis=None, layer_opts=None, *
 
         for d, y, opts in zip(data_list, yaxis, layer_opts):
             layer_kwargs = dict(list(kwargs.items()) + list(opts.items()))
-            how = layer_kwargs.pop('type', how)
+            layer_how = layer_kwargs.pop('type', how)
             label = layer_kwargs.pop('label', get_label(d, units=False))
-            plot, ax = basic_plot(d, how, ax, yaxis=y, label=label, *args, **layer_kwargs)
+            plot, ax = basic_plot(d, layer_how, ax, yaxis=y, label=label, *args, **layer_kwargs)
 
         legend = ax.legend(loc="best")
         if legend is not None:
-- 
2.43.0


From b7a0c7eea8a82cd646c0a4cf076461cc0a315ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 116/125] fix: Read all of the files of an EarthCARE dataset

---
 cis/data_io/products/EarthCARE.py | 54 ++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/cis/data_io/products/EarthCARE.py b/cis/data_io/products/EarthCARE.py
index 4911fdc..2e3e569 100755
--- a/cis/data_io/products/EarthCARE.py
+++ b/cis/data_io/products/EarthCARE.py
@@ -49,6 +49,18 @@ def get_metadata_EC(var,optional_standard_name=None):
     return metadata
 
 
+def read_all_files_EC(variables, index=slice(None)):
+    """
+    Reads the values of a variable from all of the files, one file after the other along the first dimension
+
+    :param list variables: The Variable objects, one for each file
+    :param index: The part of each of the variables to read (default is everything)
+    :return: The (masked) array of values
+    """
+    if len(variables) == 1:
+        return variables[0][index]
+    return utils.concatenate([variable[index] for variable in variables])
+
 
 ################################################################
 class EarthCARE_MSI_ATL(AProduct):
@@ -137,6 +149,8 @@ class EarthCARE_MSI_ATL(AProduct):
             aVarMetadata = get_metadata_EC(reqdVarData[variable][0])
             #logging.info(str(aVarMetadata.shape))
             requiredShape = aVarMetadata.shape
+            # The files follow each other along the first of the dimensions which aren't indexed
+            fileDim = 0
         else:
             logging.info("Create coords with no variable given.")
 
@@ -162,13 +176,18 @@ class EarthCARE_MSI_ATL(AProduct):
                                  format(reqdVarData[variable][0].dimensions[aKnownDim[2]],
                                         str(aKnownDim[2])))
                     foundKnownDim=True
+                    if aKnownDim[2] == 0:
+                        fileDim = 1
                     requiredShapeList=list(requiredShape)
                     del requiredShapeList[aKnownDim[2]]
                     requiredShape=tuple(requiredShapeList)
                     logging.info(str(requiredShape))
 
+            if len(reqdVarData[variable]) > 1 and len(requiredShape) > 0:
+                nAllFiles = sum(var.shape[fileDim] for var in reqdVarData[variable])
+                requiredShape = (nAllFiles,) + tuple(requiredShape[1:])
 
-        longitude_data = data[longitude_var_name][0][:]
+        longitude_data = read_all_files_EC(data[longitude_var_name])
         if( (variable is not None) and (len(longitude_data.shape) > len(requiredShape) ) ):
             logging.info("longitude data has more dims than that of required data, not adding to coords")
         else:
@@ -183,7 +202,7 @@ class EarthCARE_MSI_ATL(AProduct):
             coords.append(Coord(longitude_data_expanded, 
                                 longitude_data_expanded_metadata,"X"))
 
-        latitude_data = data[latitude_var_name][0][:]
+        latitude_data = read_all_files_EC(data[latitude_var_name])
         if( (variable is not None) and (len(latitude_data.shape) > len(requiredShape) ) ):
             logging.info("latitude data has more dims than that of required data, not adding to coords")
         else:
@@ -198,7 +217,7 @@ class EarthCARE_MSI_ATL(AProduct):
             coords.append(Coord(latitude_data_expanded,
                                 latitude_data_expanded_metadata,"Y"))
 
-        time_data_masked = data[time_var_name][0][:]
+        time_data_masked = read_all_files_EC(data[time_var_name])
         time_data_expanded=None
         b_is_time_data_of_reqd_dim = False
         if( (variable is not None) and (len(time_data_masked.shape) < len(requiredShape) ) ):
@@ -242,6 +261,8 @@ class EarthCARE_MSI_ATL(AProduct):
         if ( True == b_altitude_found ) :
             #sampleAltitude_metadata = get_metadata_EC(sampleAltitudeData[height_var_name][0])
             sampleAltitude_metadata = get_metadata_EC(sampleAltitudeData[height_var_name][0],"height")
+            sampleAltitude = read_all_files_EC(sampleAltitudeData[height_var_name])
+            sampleAltitude_metadata.shape = sampleAltitude.shape
             if( (variable is not None) and (sampleAltitude_metadata.shape==requiredShape) ):
                 height_metadata = Metadata("altitude",long_name=sampleAltitude_metadata.long_name,
                         units=sampleAltitude_metadata.units,
@@ -249,7 +270,7 @@ class EarthCARE_MSI_ATL(AProduct):
                         shape=sampleAltitude_metadata.shape,
                         history=''
                         )
-                coords.append(Coord(sampleAltitudeData[height_var_name][0][:], height_metadata ,"Z"))
+                coords.append(Coord(sampleAltitude, height_metadata ,"Z"))
                 variables.append(height_var_name)
                 logging.info("Added height coord from variable {}".format(height_var_name))
             elif (variable is not None):
@@ -337,11 +358,10 @@ class EarthCARE_MSI_ATL(AProduct):
         for AKNOWNDIM in self.m_listOfKnownDims:
             # AKNOWNDIM[1] is string dimname in user variable
             if AKNOWNDIM[1] in variable:
-                thisDimNum=int(variable[-1:])#assume last number is the known dim
-                #remove dimnum and string dim from the end
-                nLastFew=len(AKNOWNDIM[1])+1
+                #the number at the end is the known dim, remove dimnum and string dim from the end
                 variablePassed = variable
-                variable=variable[:-nLastFew]
+                variable, thisDimNum = variable.rsplit(AKNOWNDIM[1], 1)
+                thisDimNum = int(thisDimNum)
                 thisDimIndexPos=AKNOWNDIM[2]
                 break
 
@@ -350,10 +370,7 @@ class EarthCARE_MSI_ATL(AProduct):
             var = read_many_files_individually(filenames, [variable])
         except InvalidVariableError:
             logging.info("InvalidVariableError when reading variable: {}".format(variable))
-            return
-        except:
-            logging.info("unknown when reading variable: {}".format(variable))
-            return
+            raise
 
         logging.debug("get_metadata for -{}, shape {} ".format(var[variable][0].long_name,var[variable][0].shape))
         #logging.debug(var[variable][0])
@@ -378,16 +395,16 @@ class EarthCARE_MSI_ATL(AProduct):
                     #this_data_masked = var[variable][0][:]
                     if ( 3 == len(dimnames) ):
                         if 0 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][thisDimNum,...]
+                            this_data_masked = read_all_files_EC(var[variable], (thisDimNum, Ellipsis))
                         elif 1 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][:,thisDimNum,:]
+                            this_data_masked = read_all_files_EC(var[variable], (slice(None), thisDimNum, slice(None)))
                         elif 2 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][...,thisDimNum]
+                            this_data_masked = read_all_files_EC(var[variable], (Ellipsis, thisDimNum))
                     elif ( 2 == len(dimnames) ):
                         if 0 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][thisDimNum,...]
+                            this_data_masked = read_all_files_EC(var[variable], (thisDimNum, Ellipsis))
                         elif 1 == AKNOWNDIM[2]:
-                            this_data_masked = var[variable][0][:,thisDimNum]
+                            this_data_masked = read_all_files_EC(var[variable], (slice(None), thisDimNum))
                     else:
                         #should never be here
                         pass
@@ -405,6 +422,7 @@ class EarthCARE_MSI_ATL(AProduct):
                     logging.info("unrecongnised dimension in EarthCARE 3d data.")
                     raise NotImplementedError("unrecongnised dimension in EarthCARE 3d data.")
                 else:
-                    this_data_masked = var[variable][0][:]
+                    this_data_masked = read_all_files_EC(var[variable])
+                    metadata.shape = this_data_masked.shape
                     return UngriddedData(this_data_masked, metadata, coords)
                 
\ No newline at end of file
-- 
2.43.0


From 79146aa6a1900b168aa6417b547ba3b64f347fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:30 +0000
Subject: [PATCH 117/125] fix: Keep the slices, sums and copies of gridded data
 as gridded data

---
 cis/data_io/gridded_data.py | 46 ++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index 38ae249..dcd6079 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -113,11 +113,11 @@ class GriddedData(iris.cube.Cube, CommonData):
         :param ndarray data: Replace the data of the copy with the provided data
         :return: Copied GriddedData object
         """
-        new_data = make_from_cube(super(GriddedData, self).copy(data))
-        new_data._local_attributes = list(self._local_attributes)
-        new_data.filenames = self.filenames
-        new_data.alias = self._alias
-        return new_data
+        return self._wrap_cube(super(GriddedData, self).copy(data))
+
+    def __deepcopy__(self, memo):
+        # Iris gives plain cubes for the copies of any subclass
+        return self.copy()
 
     def __repr__(self):
         # Override the Cube representation
@@ -132,14 +132,36 @@ class GriddedData(iris.cube.Cube, CommonData):
         for c in itr:
             yield make_from_cube(c)
 
-    def __getitem__(self, keys):
-        # Iris gives plain cubes for the slices of any subclass
-        new_data = make_from_cube(super(GriddedData, self).__getitem__(keys))
+    def _wrap_cube(self, cube):
+        """
+        Makes a GriddedData object from a cube which iris derived from this one
+        :param cube: The derived Cube
+        :return: The GriddedData object
+        """
+        if cube is self:
+            return cube
+        new_data = make_from_cube(cube)
         new_data._local_attributes = list(self._local_attributes)
         new_data.filenames = self.filenames
         new_data.alias = self._alias
         return new_data
 
+    def __getitem__(self, keys):
+        # Iris gives plain cubes for the slices of any subclass
+        return self._wrap_cube(super(GriddedData, self).__getitem__(keys))
+
+    def intersection(self, *args, **kwargs):
+        # Iris gives plain cubes here too
+        return self._wrap_cube(super(GriddedData, self).intersection(*args, **kwargs))
+
+    def interpolate(self, *args, **kwargs):
+        # Iris gives plain cubes here too
+        return self._wrap_cube(super(GriddedData, self).interpolate(*args, **kwargs))
+
+    def regrid(self, *args, **kwargs):
+        # Iris gives plain cubes here too
+        return self._wrap_cube(super(GriddedData, self).regrid(*args, **kwargs))
+
     def slices(self, *args, **kwargs):
         return self._wrap_cube_iterator(super(GriddedData, self).slices(*args, **kwargs))
 
@@ -441,6 +463,14 @@ class GriddedDataList(iris.cube.CubeList, CommonDataList):
     def __str__(self):
         return "GriddedDataList: \n%s" % super(GriddedDataList, self).__str__()
 
+    def __getitem__(self, item):
+        # Iris gives plain cube lists for the slices of any subclass
+        return CommonDataList.__getitem__(self, item)
+
+    def __add__(self, rhs):
+        # Iris gives plain cube lists here too
+        return CommonDataList.__add__(self, rhs)
+
     @property
     def is_gridded(self):
         """Returns value indicating whether the data/coordinates are gridded.
-- 
2.43.0


From a437e4e62a097cae1fa633f44bc355e4f6d3915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:49 +0000
Subject: [PATCH 118/125] fix: Save the attributes of the variables of a list
 with the variables

---
 cis/data_io/gridded_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/gridded_data.py b/cis/data_io/gridded_data.py
index dcd6079..f16424a 100644
--- a/cis/data_io/gridded_data.py
+++ b/cis/data_io/gridded_data.py
@@ -488,7 +488,7 @@ class GriddedDataList(iris.cube.CubeList, CommonDataList):
         :param output_file: File to save to
         """
         logging.info('Saving data to %s' % output_file)
-        save_args = {}
+        save_args = {'local_keys': set(key for data in self for key in data._local_attributes)}
 
         # If we have a time coordinate then use that as the unlimited dimension, otherwise don't have any
         if self.coords('time'):
-- 
2.43.0


From db75835cb6e7ad8a2312d6201d4f677ce0a27427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:41 +0000
Subject: [PATCH 119/125] fix: Compare all of the dimensions of the coordinates
 when adding to a list

---
 cis/data_io/common_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cis/data_io/common_data.py b/cis/data_io/common_data.py
index e6b48a2..bfe1557 100644
--- a/cis/data_io/common_data.py
+++ b/cis/data_io/common_data.py
@@ -311,7 +311,7 @@ class CommonDataList(list):
                 raise ValueError("Incompatible data: {} must have the same number of coordinates as the first element "
                                  "in this list.".format(that_class))
             for this_coord, that_coord in zip(self.coords(), p_object.coords()):
-                if any([(a != b) for a, b in zip(this_coord.points.shape, that_coord.points.shape)]):
+                if this_coord.points.shape != that_coord.points.shape:
                     raise ValueError("Given coordinate {} has shape {} which is "
                                      "incompatible with {}.".format(that_coord.name(),
                                                                     that_coord.shape,
-- 
2.43.0


From 619f1549c30eadb9fa8d2b3ebaa3adb7cc7d6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:19 +0000
Subject: [PATCH 120/125] fix: Don't take scalar coordinates of the sample for
 its dimensions in gridded collocation

---
 cis/collocation/col_implementations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 18c4119..460533c 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -725,7 +725,8 @@ class GriddedCollocator(Collocator):
         output_mask = None
 
         # Construct the missing value mask from the sample data, if applicable.
-        if len(coord_names_and_sizes_for_sample_grid) < len(points.dim_coords):
+        shared_names = [name for name, _ in coord_names_and_sizes_for_sample_grid]
+        if any(coord.name() not in shared_names for coord in points.dim_coords):
             # One or more axes collapsed so many sample points correspond to each output point.
             pass
         else:
-- 
2.43.0


From 0b3d064be0190354bd0c422af6c7f764fc70fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:42 +0000
Subject: [PATCH 121/125] fix: Keep all of the variables of a list in its data
 frame

---
 cis/data_io/ungridded_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cis/data_io/ungridded_data.py b/cis/data_io/ungridded_data.py
index cc423c3..7c30956 100644
--- a/cis/data_io/ungridded_data.py
+++ b/cis/data_io/ungridded_data.py
@@ -1135,7 +1135,8 @@ class UngriddedDataList(CommonDataList):
             except ValueError:
                 logging.warn("Copy created of MaskedArray for {} when creating Pandas DataFrame".format(d.name()))
                 data = _to_flat_ndarray(d.data, True)
-            df[d.name()] = data
+            # Variables of one list can share a (standard) name
+            df[d.name() if d.name() not in df else d.var_name] = data
 
         return df
 
-- 
2.43.0


From 9127c035eae4a911c08ccc1001c8f8621fb59885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:03 +0000
Subject: [PATCH 122/125] fix: Compare horizontal positions by name in the
 nearest neighbour kernel

---
 cis/collocation/col_implementations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cis/collocation/col_implementations.py b/cis/collocation/col_implementations.py
index 460533c..a7226c7 100644
--- a/cis/collocation/col_implementations.py
+++ b/cis/collocation/col_implementations.py
@@ -472,7 +472,11 @@ class nn_horizontal(Kernel):
             Collocation using nearest neighbours along the face of the earth where both points and
               data are a list of HyperPoints. The default point is the first point.
         """
-        from cis.collocation.kdtree import haversine
+        from cis.utils import haversine
+
+        def distance(point1, point2):
+            return haversine(point1.latitude, point1.longitude, point2.latitude, point2.longitude)
+
         iterator = data.iterrows()
         try:
             nearest_point = next(iterator)[1]
@@ -480,7 +484,7 @@ class nn_horizontal(Kernel):
             # No points to check
             raise ValueError
         for idx, data_point in iterator:
-            if (haversine(point, nearest_point) > haversine(point, data_point)):
+            if distance(point, nearest_point) > distance(point, data_point):
                 nearest_point = data_point
         return nearest_point.vals
 
-- 
2.43.0


From 335e620f3990fd51e52bf8d31d25be1db31c11e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:25 +0000
Subject: [PATCH 123/125] fix: Let the nearest neighbour kernels be used when
 binning onto a grid

---
 cis/data_io/hyperpoint.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cis/data_io/hyperpoint.py b/cis/data_io/hyperpoint.py
index 6fb6a1b..4d5441e 100644
--- a/cis/data_io/hyperpoint.py
+++ b/cis/data_io/hyperpoint.py
@@ -85,6 +85,13 @@ class HyperPoint(namedtuple('HyperPoint', ['latitude', 'longitude', 'altitude',
     def same_point_in_space_and_time(self, other):
         return (self.same_point_in_space(other) and self.same_point_in_time(other))
 
+    @property
+    def vals(self):
+        """
+        The (first) value of this point, as for a row of a data frame
+        """
+        return self.val[0]
+
     def get_coord_tuple(self):
         """
         This returns a sorted tuple of coordinate names and values. It is sorted to fix an iris bug when doing
@@ -184,6 +191,12 @@ class HyperPointList(list):
         for idx, point in enumerate(self):
             yield idx, point
 
+    def iterrows(self):
+        """
+        Iterate over the points in the same way as over the rows of a data frame
+        """
+        return enumerate(self)
+
     @property
     def vals(self):
         from numpy import zeros
-- 
2.43.0


From f52b44519bc8902ed70aef8f627b432e022b2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:44 +0000
Subject: [PATCH 124/125] fix: Skip the missing sample points in the default
 iteration of constraints

---
 cis/collocation/col_framework.py | 35 ++++++++++++++++----------------
 cis/utils.py                     |  5 +++--
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/cis/collocation/col_framework.py b/cis/collocation/col_framework.py
index d56bb68..ad04865 100644
--- a/cis/collocation/col_framework.py
+++ b/cis/collocation/col_framework.py
@@ -126,6 +126,20 @@ class AbstractDataOnlyKernel(Kernel):
         """
 
 
+def _index_iterator(missing_data_for_missing_sample, coord_map, shape, points, output_data):
+    """
+    Iterate over the indices of the output points which need to be calculated
+    """
+    if missing_data_for_missing_sample:
+        # The dimensions of the sample are in the order of its coordinates, which needn't be the order of the output
+        sample_dims = [shi for (hpi, ci, shi) in sorted(coord_map, key=lambda x: x[1])]
+        for sample_indices in index_iterator_for_non_masked_data(shape, points):
+            yield tuple(sample_indices[sample_dims.index(dim)] for dim in range(len(sample_dims)))
+    else:
+        for indices in index_iterator_nditer(shape, output_data[0]):
+            yield indices
+
+
 @six.add_metaclass(ABCMeta)
 class Constraint(object):
     """
@@ -165,12 +179,7 @@ class Constraint(object):
          these points
         """
         from cis.collocation.col_implementations import HyperPoint
-        if missing_data_for_missing_sample:
-            iterator = index_iterator_for_non_masked_data(shape, points)
-        else:
-            iterator = index_iterator_nditer(shape, output_data[0])
-
-        for indices in iterator:
+        for indices in _index_iterator(missing_data_for_missing_sample, coord_map, shape, points, output_data):
             hp_values = [None] * HyperPoint.number_standard_names
             for (hpi, ci, shi) in coord_map:
                 hp_values[hpi] = coords[ci].points[indices[shi]]
@@ -196,12 +205,7 @@ class CellConstraint(Constraint):
 
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
         from cis.collocation.col_implementations import HyperPoint
-        if missing_data_for_missing_sample:
-            iterator = index_iterator_for_non_masked_data(shape, points)
-        else:
-            iterator = index_iterator_nditer(shape, output_data[0])
-
-        for indices in iterator:
+        for indices in _index_iterator(missing_data_for_missing_sample, coord_map, shape, points, output_data):
             hp_values = [None] * HyperPoint.number_standard_names
             hp_cell_values = [None] * HyperPoint.number_standard_names
             for (hpi, ci, shi) in coord_map:
@@ -220,12 +224,7 @@ class IndexedConstraint(Constraint):
 
     def get_iterator(self, missing_data_for_missing_sample, coord_map, coords, data_points, shape, points, output_data):
         from cis.collocation.col_implementations import HyperPoint
-        if missing_data_for_missing_sample:
-            iterator = index_iterator_for_non_masked_data(shape, points)
-        else:
-            iterator = index_iterator_nditer(shape, output_data[0])
-
-        for indices in iterator:
+        for indices in _index_iterator(missing_data_for_missing_sample, coord_map, shape, points, output_data):
             hp_values = [None] * HyperPoint.number_standard_names
             for (hpi, ci, shi) in coord_map:
                 hp_values[hpi] = coords[ci].points[indices[shi]]
diff --git a/cis/utils.py b/cis/utils.py
index 9c50a4d..d9a4b74 100644
--- a/cis/utils.py
+++ b/cis/utils.py
@@ -465,9 +465,10 @@ def index_iterator_for_non_masked_data(shape, points):
     cell_count = 0
     cell_total = 0
 
-    it = np.nditer(points.data, flags=['multi_index'])
+    # Iterating over a masked array would ignore its mask
+    it = np.nditer(np.ma.getmaskarray(points.data), flags=['multi_index'])
     while not it.finished:
-        if it[0] is not np.ma.masked:
+        if not it[0]:
             yield it.multi_index
 
         it.iternext()
-- 
2.43.0


From 606d3688c118c6748e7a511fea9d24b978c3e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:10 +0000
Subject: [PATCH 125/125] fix: Iterate over ungridded sample points by default
 in constraints

---
 cis/collocation/col_framework.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cis/collocation/col_framework.py b/cis/collocation/col_framework.py
index ad04865..43fa801 100644
--- a/cis/collocation/col_framework.py
+++ b/cis/collocation/col_framework.py
@@ -179,6 +179,13 @@ class Constraint(object):
          these points
         """
         from cis.collocation.col_implementations import HyperPoint
+        if coord_map is None:
+            # The sample points are the rows of a data frame, rather than the points of a grid
+            for i, point in points.iterrows():
+                if not (missing_data_for_missing_sample and 'vals' in points and np.isnan(point.vals)):
+                    yield i, point, self.constrain_points(point, data_points)
+            return
+
         for indices in _index_iterator(missing_data_for_missing_sample, coord_map, shape, points, output_data):
             hp_values = [None] * HyperPoint.number_standard_names
             for (hpi, ci, shi) in coord_map:
-- 
2.43.0

