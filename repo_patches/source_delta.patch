From bcb721b8dda57bbedb09c68acf79f862186db892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 01/80] fix: accept a vector of depths when projecting image
 points to the world

---
 src/glimpse/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9234bf4..bd61f3f 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1468,7 +1468,7 @@ class Camera:
             xyz = np.dot(xy, self.R[0:2, :])
         # Simulate z = 1 by adding 3rd column of rotation matrix
         xyz += self.R.T[:, 2]
-        if depth != 1:
+        if np.any(np.not_equal(depth, 1)):
             xyz *= np.atleast_1d(depth).reshape(-1, 1)
         if not directions:
             xyz += self.xyz
-- 
2.43.0


From 01ec95127773edf9de6cb3c441dc0bedf8cc9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 02/80] fix: remove first-order radial distortion from points
 on the vertical image axis

---
 src/glimpse/camera.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index bd61f3f..d10390b 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1223,8 +1223,7 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        # r' = y / cos(phi)
-        R = -xy[:, 0] / (2 * self.k[0] * np.cos(phi))
+        R = -np.hypot(xy[:, 0], xy[:, 1]) / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
-- 
2.43.0


From 8b766d20b17f8c2f471c4cee94f213c5ffd33f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 03/80] fix: do not modify the list passed to format_list

---
 src/glimpse/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 756db74..6774697 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -70,12 +70,12 @@ def format_list(
             x = x[0:length]
         elif nx < length:
             if default is not None:
-                x += [default] * (length - nx)
+                x = x + [default] * (length - nx)
             elif nx > 0:
                 # Repeat list
                 if length % nx != 0:
                     raise ValueError("Output length is not multiple of input length")
-                x *= length // nx
+                x = x * (length // nx)
     if dtype:
         x = [dtype(i) for i in x]
     return x
-- 
2.43.0


From 44d159931a806ef5deeffe8e4b546e6c359992c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 04/80] fix: find nearest neighbors among a single value

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 6774697..c8aa0cb 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -174,7 +174,8 @@ def _sorted_neighbors(x: Iterable, y: Iterable) -> np.ndarray:
     index[(index > 0) & (index < len(x))] -= 1
     # index = len(x) snap to index - 2
     index[index == len(x)] -= 2
-    return np.column_stack((index, index + 1))
+    # len(x) = 1 has no second neighbor
+    return np.clip(np.column_stack((index, index + 1)), 0, len(x) - 1)
 
 
 def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
-- 
2.43.0


From d1e8de77f68410a09d255339878fae358f28d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 05/80] fix: insert the box boundary vertex of edges that start
 on the boundary

---
 src/glimpse/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index c8aa0cb..9b398b3 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -770,9 +770,10 @@ def intersect_edge_box(
         0.5
     """
     distance = np.asarray(distance).reshape(1, -1)
-    t = np.nanmin(intersect_rays_box(origin, distance, box, t=True))
-    if t > 0 and t < 1:
-        return t
+    # Ignore an intersection at the origin itself
+    for t in np.ravel(intersect_rays_box(origin, distance, box, t=True)):
+        if t > 0 and t < 1:
+            return t
     return None
 
 
-- 
2.43.0


From 024be8c81ddb929231f17d5649d701f662c6c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 06/80] fix: keep diagonal steps of a rasterized circle

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 9b398b3..1c649ee 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1018,7 +1018,7 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         # 8th octant
         xy[6 * octant_size - i, :] = [x0 - y, y0 - x]
     # Remove duplicate points
-    unique = [True] + (np.diff(xy, axis=0).sum(axis=1) != 0).tolist()
+    unique = [True] + (np.diff(xy, axis=0) != 0).any(axis=1).tolist()
     return xy[unique]
 
 
-- 
2.43.0


From c32ad6f36cfd255da5a94fa4a3394b844166861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 07/80] fix: fill beyond the ends of a line with descending
 distance measures as documented

---
 src/glimpse/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 1c649ee..fb10395 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1147,7 +1147,8 @@ def interpolate_line(
         error = False
         fill = "endpoints"
     # x must be increasing
-    if len(x) > 1 and x[1] < x[0]:
+    descending = len(x) > 1 and x[1] < x[0]
+    if descending:
         sort_index = np.argsort(x)
         x = x[sort_index]
         vertices = vertices[sort_index, :]
@@ -1163,7 +1164,8 @@ def interpolate_line(
         fill = (fill, fill)
     left = np.less(xi, x[0])
     right = np.greater(xi, x[-1])
-    if x[0] > x[-1]:
+    if descending:
+        # Vertices are now reversed, but not fill
         right, left = left, right
     if error and (left.any() or right.any()):
         raise ValueError("Requested distance outside range")
-- 
2.43.0


From ec1e824a73781ee0ab857a82a46b6ebee9b46c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 08/80] fix: meet the nominal spacing of interpolated line
 points

---
 src/glimpse/helpers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index fb10395..3271889 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1138,10 +1138,8 @@ def interpolate_line(
         x = np.insert(x, 0, 0)
     if xi is None:
         if n is None:
-            n = abs((x[-1] - x[0]) / dx)
-            if n == int(n):
-                n += 1
-            n = int(round(n))
+            # Number of intervals nearest to dx
+            n = max(int(round(abs((x[-1] - x[0]) / dx))), 1) + 1
         xi = np.linspace(start=x[0], stop=x[-1], num=n, endpoint=True)
         # Ensure defaults for speed
         error = False
-- 
2.43.0


From cf89c227f9bd0fce5f80fd7b7178654dfabeda59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 09/80] fix: rasterize points on the right and bottom edges of
 the image

---
 src/glimpse/camera.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index d10390b..60346df 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -855,9 +855,9 @@ class Camera:
         """
         mask = self.inframe(uv)
         a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
-        helpers.rasterize_points(
-            uv[mask, 1].astype(int), uv[mask, 0].astype(int), values[mask], a=a
-        )
+        # Points on the right and bottom edges belong to the last pixel
+        ij = np.minimum(uv[mask].astype(int), self.imgsz - 1)
+        helpers.rasterize_points(ij[:, 1], ij[:, 0], values[mask], a=a)
         return a
 
     def spherical_to_xyz(self, angles: np.ndarray) -> np.ndarray:
@@ -1077,7 +1077,8 @@ class Camera:
             if not np.count_nonzero(is_in):
                 # No cells in image
                 return None
-            rc = uv[is_in, ::-1].astype(int)
+            # Points on the right and bottom edges belong to the last pixel
+            rc = np.minimum(uv[is_in].astype(int), self.imgsz - 1)[:, ::-1]
             # Compile values
             if has_values:
                 tile_values = tile_values[tile_mask][is_in]
-- 
2.43.0


From f2a8f19b7a8b90c8d87001a6b94611d029176efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 10/80] fix: rescale elevation model tiles in project_dem

---
 src/glimpse/camera.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 60346df..2fd88fd 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1058,12 +1058,15 @@ class Camera:
                 tile_mask = scipy.ndimage.zoom(
                     tile_mask, zoom=float(tile_scale), order=0
                 )
-                tile_values = np.dstack(
-                    scipy.ndimage.zoom(
-                        tile_values[:, :, i], zoom=float(tile_scale), order=1
+                if has_values:
+                    tile_values = np.dstack(
+                        [
+                            scipy.ndimage.zoom(
+                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                            )
+                            for i in range(tile_values.shape[2])
+                        ]
                     )
-                    for i in range(tile_values.shape[2])
-                )
             # Project tile
             xyz = helpers.grid_to_points(
                 (tile.X[tile_mask], tile.Y[tile_mask], tile.array[tile_mask])
-- 
2.43.0


From b2da72983630e8b2edac81f83b14de16460736c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 11/80] fix: validate the grid size and clear cached
 coordinates when it changes

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 65b00ae..0305843 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -51,7 +51,7 @@ class Grid:
         y: Iterable[Union[Number, Iterable[Number]]] = None,
         crs: Union[int, str] = None,
     ) -> None:
-        self._size = size
+        self.size = size
         self.xlim, self._x, self._X = self._parse_xy(x, dim=0)
         self.ylim, self._y, self._Y = self._parse_xy(y, dim=1)
         self.crs = crs
@@ -83,6 +83,7 @@ class Grid:
         if (value <= 0).any():
             raise ValueError("Grid dimensions must be positive")
         self._size = value
+        self._clear_cache()
 
     @property
     def xlim(self) -> np.ndarray:
@@ -216,7 +217,7 @@ class Grid:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
         grid.xlim, grid.ylim = xlim, ylim
-        grid.n = (buf_xsize, buf_ysize)
+        grid.size = (buf_xsize, buf_ysize)
         return grid
 
     # ---- Methods (private) ----
-- 
2.43.0


From 55d253ae65ae310fa2f081db0be9e93d0ea21d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 12/80] fix: keep the interpolator and the elevations
 consistent when shifting a raster

---
 src/glimpse/raster.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 0305843..037c654 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -270,17 +270,17 @@ class Grid:
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
         if dx is not None:
-            self._xlim += dx
+            self._xlim = self._xlim + dx
             if self._x is not None:
-                self._x += dx
+                self._x = self._x + dx
             if self._X is not None:
-                self._X += dx
+                self._X = self._X + dx
         if dy is not None:
-            self._ylim += dy
+            self._ylim = self._ylim + dy
             if self._y is not None:
-                self._y += dy
+                self._y = self._y + dy
             if self._Y is not None:
-                self._Y += dy
+                self._Y = self._Y + dy
 
     # ---- Methods ---- #
 
@@ -1206,16 +1206,9 @@ class Raster(Grid):
         """
         self._shift_xy(dx=dx, dy=dy)
         if dz is not None:
-            # Prevent reset of cached interpolants
-            self._array += dz
-        if self._Zf is not None:
-            # Shift cached interpolants
-            if dx is not None:
-                self._Zf.grid[0][:] += dx
-            if dy is not None:
-                self._Zf.grid[1][:] += dy
-            if dy is not None:
-                self._Zf.values += dz
+            self.array = self.array + dz
+        # Interpolator may share memory with the coordinates and values
+        self._clear_cache(["Zf"])
 
     def fill_circle(
         self, center: Iterable[Number], radius: Number, value: Any = np.nan
-- 
2.43.0


From b001d24ab2f874cad4564938a5733963f4f05e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 13/80] fix: round snapped array indices

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 037c654..d6c7743 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -496,7 +496,7 @@ class Grid:
         origin = np.append(self.xlim[0], self.ylim[0])
         colrow = (xy - origin) / self.d - 0.5
         if snap:
-            colrow = colrow.astype(int)
+            colrow = np.floor(colrow + 0.5).astype(int)
         return colrow[:, ::-1]
 
     def rowcol_to_idx(self, rowcol: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 95d61f893e45f81b9223dd0c34816fa99134e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 14/80] fix: return samples of singleton rasters on a grid in
 the documented shape

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d6c7743..ccf248a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -987,11 +987,11 @@ class Raster(Grid):
                 z = self._sample_1d(xy[dim], dim=dim, kind=methods[order])
                 samples = np.tile(
                     z.reshape(-1 if dim else 1, 1 if dim else -1),
-                    reps=(1 if dim else len(z), len(z) if dim else 1),
+                    reps=(1, len(xy[0])) if dim else (len(xy[1]), 1),
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[0]), len(xy[1])), self.array.flat[0])
+                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
-- 
2.43.0


From 33bcf073c05e2efbf6affe10379514ac0473804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 15/80] fix: do not modify raster values when sampling on a
 grid

---
 src/glimpse/raster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ccf248a..51f7484 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1051,11 +1051,12 @@ class Raster(Grid):
         # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
         Zmin = np.nanmin(self.array)
         is_nan = np.isnan(self.array)
-        self.array[is_nan] = helpers.numpy_dtype_minmax(self.array.dtype)[0]
+        array = self.array.copy()
+        array[is_nan] = helpers.numpy_dtype_minmax(array.dtype)[0]
         fun = scipy.interpolate.RectBivariateSpline(
             self.y[:: signs[1]],
             self.x[:: signs[0]],
-            self.array[:: signs[1], :: signs[0]],
+            array[:: signs[1], :: signs[0]],
             bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
             kx=kx,
             ky=ky,
@@ -1065,7 +1066,6 @@ class Raster(Grid):
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
         samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
         samples[samples < Zmin] = np.nan
-        self.array[is_nan] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From 896d3cca7d4c4c7c07123516c00011cddf4766b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 16/80] fix: extract the last row or column of a raster by its
 negative index

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 51f7484..55b92de 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -677,9 +677,9 @@ class Raster(Grid):
             raise IndexError("Only integers and slices are valid indices")
         i, j = indices[0], indices[1]
         if not isinstance(i, slice):
-            i = slice(i, i + 1)
+            i = slice(i, i + 1 or None)
         if not isinstance(j, slice):
-            j = slice(j, j + 1)
+            j = slice(j, j + 1 or None)
         d = self.d
         if i.step and i.step > 1:
             d[1] *= i.step
-- 
2.43.0


From 5584b0815108491a90271cf7f2be5c0b9acd12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 17/80] fix: return the size of an unread raster as an array

---
 src/glimpse/raster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 55b92de..d6c0566 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -871,7 +871,9 @@ class Raster(Grid):
         """Grid dimensions (nx, ny)."""
         if self._array is None:
             # HACK: Use gdal.ReadAsArray arguments
-            return self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"]
+            return np.array(
+                (self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"])
+            )
         return np.array(self._array.shape[0:2][::-1]).astype(int)
 
     @property
-- 
2.43.0


From 96573ea6deaf56032b06ea758c0ecbe89dcb7810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 18/80] fix: return a raster itself when interpolating at its
 own coordinate

---
 src/glimpse/raster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d6c0566..d3b5c1c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1676,7 +1676,8 @@ class RasterInterpolant:
         """Interpolate between two rasters."""
         dz = means[1].array - means[0].array
         dx = x[1] - x[0]
-        scale = (xi - x[0]) / dx
+        # Same raster twice if `xi` is the coordinate of a raster
+        scale = (xi - x[0]) / dx if dx else 0.0
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
@@ -1688,7 +1689,8 @@ class RasterInterpolant:
             )
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
-            zi_var = ((1 / 3) * dz * (nearest_dx / dx)) ** 2
+            nearest_scale = nearest_dx / dx if dx else 0.0
+            zi_var = ((1 / 3) * dz * nearest_scale) ** 2
             sigma = raster.__class__(
                 np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
             )
-- 
2.43.0


From 5dbd56d18e9fc407ebd82ec780ecc4a248557333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 19/80] fix: resize rasters to the target cell size

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d3b5c1c..4ed334f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1578,7 +1578,7 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = d / np.abs(obj.d).mean()
+                scale = np.abs(obj.d).mean() / d
                 obj.resize(scale)
             return obj
         if isinstance(obj, str):
-- 
2.43.0


From c51a0261738dfe67bef61d26a349245b528ce74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 20/80] fix: replace a no-data value of zero

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4ed334f..d35fb21 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -741,7 +741,7 @@ class Raster(Grid):
         dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(raster_band.DataType)
         is_float = np.issubdtype(dtype, np.floating)
         default_nan = raster_band.GetNoDataValue()
-        if nan is None and (is_float and default_nan):
+        if nan is None and (is_float and default_nan is not None):
             nan = default_nan
         crs = raster.GetProjection()
         obj = cls(None, x=xlim, y=ylim, datetime=datetime, crs=crs if crs else None)
-- 
2.43.0


From 30bf9d7988a7e502199c4eeaf268abeb9aae78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 21/80] fix: trace the horizon along axis-aligned rays, from
 outside the raster, and across missing values

---
 src/glimpse/raster.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d35fb21..a5a21f1 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1416,19 +1416,24 @@ class Raster(Grid):
         box = np.concatenate((self.min[0:2], self.max[0:2]))
         xy_starts, xy_ends = helpers.intersect_rays_box(origin[0:2], directions, box)
         # Convert spatial coordinates (x, y) to grid indices (xi, yi)
+        misses = np.isnan(xy_ends).any(axis=1, keepdims=True)
         inside = self.inbounds_xy(np.atleast_2d(origin[0:2]))[0]
         if inside:
             # If inside, start at origin
             rowcol = self.xy_to_rowcol(np.atleast_2d(origin[0:2]), snap=True)
             starts = np.repeat(rowcol[:, ::-1], n, axis=0)
         else:
-            rowcol = self.xy_to_rowcol(xy_starts)
-            starts = rowcol[:, ::-1]
-        rowcol = self.xy_to_rowcol(xy_ends, snap=True)
-        ends = rowcol[:, ::-1]
+            # Rays that miss the box (NaN) are skipped below
+            rowcol = self.xy_to_rowcol(np.where(misses, self.min, xy_starts), snap=True)
+            starts = np.clip(rowcol[:, ::-1], 0, np.subtract(self.size, 1))
+        rowcol = self.xy_to_rowcol(np.where(misses, self.min, xy_ends), snap=True)
+        # Rays may end beyond the bounds due to rounding
+        ends = np.clip(rowcol[:, ::-1], 0, np.subtract(self.size, 1))
         # Iterate over line in each direction
         hxyz = np.full((n, 3), np.nan)
         for i in range(n):
+            if misses[i, 0]:
+                continue
             rowcol = helpers.bresenham_line(starts[i, :], ends[i, :])[:, ::-1]
             if inside:
                 # Skip start cell
@@ -1436,6 +1441,8 @@ class Raster(Grid):
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
             dz = self.array.flat[idx] - origin[2]
+            if np.isnan(dz).all():
+                continue
             xy = self.rowcol_to_xy(rowcol)
             dxy = np.sum((xy - origin[0:2]) ** 2, axis=1)  # wait to take square root
             if isinstance(correction, dict):
-- 
2.43.0


From 4e1166f2a213452a50621bf46f6153004abd8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 22/80] fix: write the nan value in place of missing values

---
 src/glimpse/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 3271889..20d6445 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -607,6 +607,8 @@ def write_raster(
     if crs:
         wkt = crs_to_wkt(crs)
         output.SetProjection(wkt)
+    if nan is not None and np.issubdtype(a.dtype, np.floating):
+        a = np.where(np.isnan(a), a.dtype.type(nan), a)
     for i in range(output.RasterCount):
         if nan is not None:
             output.GetRasterBand(i + 1).SetNoDataValue(nan)
-- 
2.43.0


From f6a29fee9f54458fd9fede0b8fc388a7b5d29f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 23/80] fix: drop the cached interpolator when the limits or
 cells of a raster change

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index a5a21f1..2240b22 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -95,7 +95,7 @@ class Grid:
         value = self._parse_limits(value)
         if not hasattr(self, "xlim") or not np.array_equal(self.xlim, value):
             self._xlim = value
-            self._clear_cache(["x", "X"])
+            self._clear_cache(["x", "X", "Zf"])
 
     @property
     def ylim(self) -> np.ndarray:
@@ -107,7 +107,7 @@ class Grid:
         value = self._parse_limits(value)
         if not hasattr(self, "ylim") or not np.array_equal(self.ylim, value):
             self._ylim = value
-            self._clear_cache(["y", "Y"])
+            self._clear_cache(["y", "Y", "Zf"])
 
     # ---- Properties (dependent) ---- #
 
@@ -1239,6 +1239,7 @@ class Raster(Grid):
                 ind.extend(self.rowcol_to_idx(rowcols))
         # Apply
         self.array.flat[ind] = value
+        self._clear_cache(["Zf"])
 
     def hillshade(
         self, azimuth: Number = 315, altitude: Number = 45, **kwargs: Any
-- 
2.43.0


From 623592b1f9efaab9547cf10ef0cf15c60abb5aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:11 +0000
Subject: [PATCH 24/80] fix: snap points on the right and bottom bounds to the
 last cell despite rounding

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2240b22..b69c1c4 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -380,7 +380,7 @@ class Grid:
         if not edges and inbounds:
             # Points on right or bottom edges snap down to stay in bounds
             is_outer_edge = xy == np.append(self.xlim[1], self.ylim[1])
-            nxy[is_outer_edge] -= 1
+            nxy = np.where(is_outer_edge, np.subtract(self.size, 1), nxy)
         if centers and not edges:
             nxy += 0.5
         elif centers and edges:
-- 
2.43.0


From 9c3b4971d3a64295d9390f8b3d389205b4f5edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:11 +0000
Subject: [PATCH 25/80] fix: keep the cell size of raster subsets in reverse
 order

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b69c1c4..004bd5b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -681,9 +681,9 @@ class Raster(Grid):
         if not isinstance(j, slice):
             j = slice(j, j + 1 or None)
         d = self.d
-        if i.step and i.step > 1:
+        if i.step:
             d[1] *= i.step
-        if j.step and j.step > 1:
+        if j.step:
             d[0] *= j.step
         x, y = self.x[j], self.y[i]
         if len(x) < 3:
-- 
2.43.0


From 48282f9df61ce2ca5ee9784a1a78843cd1288219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 26/80] fix: cache the whole raster when reading a box with
 caching

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 004bd5b..b771ae3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -807,7 +807,7 @@ class Raster(Grid):
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None:
+            if box is not None and not cache:
                 # Convert box coordinates to source coordinates
                 scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
                     (kwargs["buf_xsize"], kwargs["buf_ysize"])
-- 
2.43.0


From c22e9e20d49f576ed6382ca3cf4bd00de47f5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 27/80] fix: keep overlapping tiles inside the grid

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b771ae3..6831034 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -600,9 +600,9 @@ class Grid:
         yends = np.insert(np.searchsorted(yi, np.unique(yi), side="right"), 0, 0)
         # HACK: Achieves overlap by increasing tile size
         xstarts = xends.copy()
-        xstarts[1:-1] -= overlap[0]
+        xstarts[1:-1] = np.maximum(xstarts[1:-1] - overlap[0], 0)
         ystarts = yends.copy()
-        ystarts[1:-1] -= overlap[1]
+        ystarts[1:-1] = np.maximum(ystarts[1:-1] - overlap[1], 0)
         return tuple(
             (slice(ystarts[i], yends[i + 1]), slice(xstarts[j], xends[j + 1]))
             for i in range(len(ystarts) - 1)
-- 
2.43.0


From 81069cc771190e681bcf14be1b49a210b76603c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 28/80] fix: fill circles on rasters with x from right to left

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6831034..7f55fdb 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1225,7 +1225,7 @@ class Raster(Grid):
         """
         # Circle indices
         rowcol = self.xy_to_rowcol(np.atleast_2d(center[0:2]), snap=True)
-        r = np.round(radius / self.d[0])
+        r = np.round(radius / abs(self.d[0]))
         xyi = helpers.bresenham_circle(rowcol[0, ::-1], r).astype(int)
         # Filled circle indices
         ind = []
-- 
2.43.0


From 9b5c2f39d00d433089fa5f66d24b14efd72cd8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 29/80] fix: keep sampled values below the raster minimum

---
 src/glimpse/raster.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 7f55fdb..ef95337 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1050,24 +1050,26 @@ class Raster(Grid):
         """Sample raster values on regular grid."""
         x, y = xy
         signs = np.sign(self.d).astype(int)
-        # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
-        Zmin = np.nanmin(self.array)
-        is_nan = np.isnan(self.array)
-        array = self.array.copy()
-        array[is_nan] = helpers.numpy_dtype_minmax(array.dtype)[0]
-        fun = scipy.interpolate.RectBivariateSpline(
-            self.y[:: signs[1]],
-            self.x[:: signs[0]],
-            array[:: signs[1], :: signs[0]],
-            bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
-            kx=kx,
-            ky=ky,
-            s=s,
-        )
         xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
-        samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
-        samples[samples < Zmin] = np.nan
+
+        def evaluate(array: np.ndarray, **kwargs: Any) -> np.ndarray:
+            fun = scipy.interpolate.RectBivariateSpline(
+                self.y[:: signs[1]],
+                self.x[:: signs[0]],
+                array[:: signs[1], :: signs[0]],
+                bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
+                **kwargs
+            )
+            return fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
+
+        # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
+        is_nan = np.isnan(self.array)
+        samples = evaluate(np.where(is_nan, 0, self.array), kx=kx, ky=ky, s=s)
+        if is_nan.any():
+            # Samples next to missing cells are missing
+            weights = evaluate(is_nan.astype(float), kx=1, ky=1)
+            samples[np.abs(weights) > 1e-9] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From 4b7b9dd5e0146dd370b6c72c01793080c1d0c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 30/80] fix: support viewsheds with curvature on integer
 elevations

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ef95337..afc2ae7 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1319,7 +1319,7 @@ class Raster(Grid):
         if correction is True:
             correction = {}
         if isinstance(correction, dict):
-            dz += helpers.elevation_corrections(dxy, **correction)
+            dz = dz + helpers.elevation_corrections(dxy, **correction)
         dxy = np.sqrt(dxy)
         dxy_cell = (dxy * (1 / abs(self.d[0])) + 0.5).astype(int)
         # Compute heading (-pi to pi CW from -y axis)
-- 
2.43.0


From d2b2a71530b7d9069cbff21f622c5c36ffda1ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 31/80] fix: keep the last row and column when resizing rasters

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index afc2ae7..8564167 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1187,7 +1187,7 @@ class Raster(Grid):
             order: Interpolation order
                 (0: nearest, 1: linear, 2: quadratic, 3: cubic, 4: quartic, 5: quintic).
         """
-        self.array = scipy.ndimage.zoom(self.array, zoom=float(scale), order=order)
+        self.array = scipy.ndimage.zoom(self.array, zoom=float(scale), order=order, mode="nearest")
 
     def shift(self, dx: Number = None, dy: Number = None, dz: Number = None) -> None:
         """
-- 
2.43.0


From c86803e3815f15f9aab56e0d9fba5820deab1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 32/80] fix: keep the last row and column when resizing tiles

---
 src/glimpse/camera.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 2fd88fd..ba6f4f8 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1056,13 +1056,16 @@ class Camera:
             if tile_scale != 1:
                 tile.resize(tile_scale)
                 tile_mask = scipy.ndimage.zoom(
-                    tile_mask, zoom=float(tile_scale), order=0
+                    tile_mask, zoom=float(tile_scale), order=0, mode="nearest"
                 )
                 if has_values:
                     tile_values = np.dstack(
                         [
                             scipy.ndimage.zoom(
-                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                                tile_values[:, :, i],
+                                zoom=float(tile_scale),
+                                order=1,
+                                mode="nearest",
                             )
                             for i in range(tile_values.shape[2])
                         ]
-- 
2.43.0


From ced6de731f332e71a017b7a0cfcda0fd7de26a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 33/80] fix: accept numbers as motion model surfaces

---
 src/glimpse/track/motion.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20a7c96..5e2e2f5 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,6 +10,11 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _constant_raster(value: Number) -> Raster:
+    """Return a constant raster with infinite bounds."""
+    return Raster(value, x=(-np.inf, np.inf), y=(-np.inf, np.inf))
+
+
 class Motion:
     """
     Illustration of the motion model interface required by :class:`Tracker`.
@@ -134,10 +139,10 @@ class CartesianMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_raster(dem)
         self.dem = dem
         if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -245,10 +250,10 @@ class CylindricalMotion(CartesianMotion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_raster(dem)
         self.dem = dem
         if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -363,10 +368,10 @@ class TangentCartesianMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_raster(dem)
         self.dem = dem
         if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -454,10 +459,10 @@ class TangentCylindricalMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_raster(dem)
         self.dem = dem
         if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
-- 
2.43.0


From d907b51b5d47aecfada68c99bbc1525f8a287726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 34/80] fix: allow motion models without surface uncertainty

---
 src/glimpse/track/motion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 5e2e2f5..520d4c5 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -141,7 +141,7 @@ class CartesianMotion(Motion):
         if not isinstance(dem, Raster):
             dem = _constant_raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
+        if dem_sigma is not None and not isinstance(dem_sigma, Raster):
             dem_sigma = _constant_raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
@@ -252,7 +252,7 @@ class CylindricalMotion(CartesianMotion):
         if not isinstance(dem, Raster):
             dem = _constant_raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
+        if dem_sigma is not None and not isinstance(dem_sigma, Raster):
             dem_sigma = _constant_raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
@@ -447,7 +447,7 @@ class TangentCylindricalMotion(Motion):
         xy: Iterable[Number],
         time_unit: datetime.timedelta,
         dem: Union[Number, Raster],
-        dem_sigma: Union[Number, Raster] = None,
+        dem_sigma: Union[Number, Raster] = 0,
         n: int = 1000,
         xy_sigma: Iterable[Number] = (0, 0),
         vrth: Iterable[Number] = (0, 0),
-- 
2.43.0


From f5ee5a34000eb36e4b84f90e22cd914cd008349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 35/80] fix: keep stationary particles valid in cylindrical
 motion

---
 src/glimpse/track/motion.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 520d4c5..04f0cc7 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -299,14 +299,15 @@ class CylindricalMotion(CartesianMotion):
         time_units = dt.total_seconds() / self.time_unit.total_seconds()
         vx = particles[:, 3]
         vy = particles[:, 4]
-        vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Stationary particles accelerate in the +x direction
+        theta = np.arctan2(vy, vx)
         arthz = self.arthz + self.arthz_sigma * np.random.randn(n, 3)
         axyz = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arthz[:, 0] * (vx / vr) - vy * arthz[:, 1],
+                arthz[:, 0] * np.cos(theta) - vy * arthz[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arthz[:, 0] * (vy / vr) + vx * arthz[:, 1],
+                arthz[:, 0] * np.sin(theta) + vx * arthz[:, 1],
                 arthz[:, 2],
             )
         )
@@ -506,14 +507,15 @@ class TangentCylindricalMotion(Motion):
         time_units = dt.total_seconds() / self.time_unit.total_seconds()
         vx = particles[:, 3]
         vy = particles[:, 4]
-        vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Stationary particles accelerate in the +x direction
+        theta = np.arctan2(vy, vx)
         arth = self.arth + self.arth_sigma * np.random.randn(n, 2)
         axy = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arth[:, 0] * (vx / vr) - vy * arth[:, 1],
+                arth[:, 0] * np.cos(theta) - vy * arth[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arth[:, 0] * (vy / vr) + vx * arth[:, 1],
+                arth[:, 0] * np.sin(theta) + vx * arth[:, 1],
             )
         )
         dxy = time_units * particles[:, 3:5] + 0.5 * axy * time_units ** 2
-- 
2.43.0


From 5134342c552c4c633b786e6db4ab9a7bcffb8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 36/80] fix: resample residual weights

---
 src/glimpse/track/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 616e0e4..d74af42 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -193,7 +193,7 @@ class Tracker:
             # NOTE: Assumes weights sum to 1
             repetitions = (n * weights).astype(int)
             initial_indexes = np.repeat(np.arange(n), repetitions)
-            residuals = weights - repetitions
+            residuals = n * weights - repetitions
             residuals *= 1 / residuals.sum()
             cumulative_sum = np.cumsum(residuals)
             cumulative_sum[-1] = 1.0
-- 
2.43.0


From b8e421ed03cf34dd7370d769381610104d363fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 37/80] fix: avoid out of range indexes when resampling
 particles

---
 src/glimpse/track/tracker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index d74af42..4e56871 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -172,7 +172,8 @@ class Tracker:
             weights = weights / weights.sum()
             positions = (np.arange(n) + np.random.random()) * (1 / n)
             cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
+            # NOTE: Assumes weights sum to 1 (avoid round-off error)
+            cumulative_weight[-1] = 1.0
             return np.searchsorted(cumulative_weight, positions)
 
         def stratified(n: int, weights: np.ndarray) -> np.ndarray:
@@ -182,7 +183,8 @@ class Tracker:
             weights = weights / weights.sum()
             positions = (np.arange(n) + np.random.random(n)) * (1 / n)
             cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
+            # NOTE: Assumes weights sum to 1 (avoid round-off error)
+            cumulative_weight[-1] = 1.0
             return np.searchsorted(cumulative_weight, positions)
 
         def residual(n: int, weights: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 49636864bdf664a8cfc01cd3c5512a14db71122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 38/80] fix: sample tiles with cells other than one pixel, and
 on grids

---
 src/glimpse/track/observer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 87fac3b..c2f42f9 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -1,6 +1,6 @@
 """Represent a sequence of images taken from the same camera position."""
 import datetime
-from typing import Any, Iterable, List, Tuple, Union, cast
+from typing import Any, Iterable, List, Tuple, Union
 
 import matplotlib.animation
 import matplotlib.patches
@@ -198,20 +198,20 @@ class Observer:
         Raises:
             ValueError: Some sampling points are outside box.
         """
-        if not np.all(helpers.in_box(uv, box)):
+        u, v = (uv[0], uv[1]) if grid else (uv[:, 0], uv[:, 1])
+        inside_u = np.greater_equal(u, box[0]) & np.less_equal(u, box[2])
+        inside_v = np.greater_equal(v, box[1]) & np.less_equal(v, box[3])
+        if not (np.all(inside_u) and np.all(inside_v)):
             raise ValueError("Some sampling points are outside box")
         # Cell sizes
         du = (box[2] - box[0]) / tile.shape[1]
         dv = (box[3] - box[1]) / tile.shape[0]
         # Cell center coordinates
-        cu = np.arange(box[0] + du * 0.5, box[2])  # x|cols
-        cv = np.arange(box[1] + dv * 0.5, box[3])  # y|rows
+        cu = box[0] + du * np.arange(0.5, tile.shape[1])  # x|cols
+        cv = box[1] + dv * np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at arbitrary coordinates
         f = scipy.interpolate.RectBivariateSpline(cv, cu, tile, **kwargs)
-        if grid:
-            return f(uv[1], uv[0], grid=grid)
-        uv = cast(np.ndarray, uv)
-        return f(uv[:, 1], uv[:, 0], grid=grid)
+        return f(v, u, grid=grid)
 
     def plot_tile(
         self,
-- 
2.43.0


From e1fc6d286a80850036bbdee0fff4db7bb627f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 39/80] fix: keep the given tile when shifting tiles

---
 src/glimpse/track/observer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index c2f42f9..fe7a33b 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -168,12 +168,13 @@ class Observer:
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
         tile = np.atleast_3d(tile)
+        shifted = np.empty(tile.shape, dtype=np.result_type(tile.dtype, np.float32))
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
-            tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-        if tile.shape[2] == 1:
-            return tile.squeeze(axis=2)
-        return tile
+            shifted[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
+        if shifted.shape[2] == 1:
+            return shifted.squeeze(axis=2)
+        return shifted
 
     def sample_tile(
         self,
-- 
2.43.0


From b120163770c3eaaa8675bbf967c85f2a9e5d996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 40/80] fix: plot tiles by default with the width and height in
 order

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index fe7a33b..7827a3a 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -233,7 +233,7 @@ class Observer:
             **kwargs: Optional arguments to :func:`matplotlib.pyplot.imshow`.
         """
         if box is None:
-            box = (0, 0, tile.shape[0], tile.shape[1])
+            box = (0, 0, tile.shape[1], tile.shape[0])
         extent = (box[0], box[2], box[3], box[1])
         if axes is None:
             axes = matplotlib.pyplot.gca()
-- 
2.43.0


From 0a391bc11119ff467516699036dc11bbac139993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 41/80] fix: keep the last images when splitting observers

---
 src/glimpse/track/observer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 7827a3a..bfaafb8 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -478,8 +478,9 @@ class Observer:
         if np.iterable(n):
             breaks = np.unique(np.hstack((n, self.datetimes[[0, -1]])))
         else:
-            dt = (self.datetimes[-1] - self.datetimes[0]) / n
-            breaks = helpers.datetime_range(self.datetimes[0], self.datetimes[-1], dt)
+            # NOTE: Compute from fraction (avoid accumulating round-off error)
+            span = self.datetimes[-1] - self.datetimes[0]
+            breaks = [self.datetimes[0] + span * (i / n) for i in range(n + 1)]
         observers = []
         start = breaks[0]
         for i in range(len(breaks) - 1):
-- 
2.43.0


From c99970387569b89a1d4d314c7317c37f7c35caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 42/80] fix: accept tracks with different numbers of warnings

---
 src/glimpse/track/tracks.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ce7fb73..b701f08 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -84,8 +84,17 @@ class Tracks:
         self.tracker = tracker
         self.images = images if images is None else np.asarray(images)
         self.params = params
-        self.errors = errors if errors is None else np.asarray(errors)
-        self.warnings = warnings if warnings is None else np.asarray(warnings)
+        self.errors = errors if errors is None else self._object_array(errors)
+        self.warnings = warnings if warnings is None else self._object_array(warnings)
+
+    @staticmethod
+    def _object_array(values: Iterable) -> np.ndarray:
+        """Return 1-dimensional array of arbitrary (nested) objects."""
+        values = list(values)
+        array = np.empty(len(values), dtype=object)
+        for i, value in enumerate(values):
+            array[i] = value
+        return array
 
     @property
     def xyz(self) -> np.ndarray:
-- 
2.43.0


From 168d4e439d599e908c13cc233b20aa17ebc444f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:37 +0000
Subject: [PATCH 43/80] fix: measure datetime distances independently of the
 local timezone

---
 src/glimpse/helpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 20d6445..ba6eea9 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1576,9 +1576,12 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to POSIX timestamps (seconds since 1970-01-01 00:00:00 UTC)
-    x = [xi.timestamp() for xi in x]
-    y = [yi.timestamp() for yi in y]
+    # Convert datetimes to seconds from a common origin
+    # NOTE: Timestamps of naive datetimes depend on the local timezone
+    y = list(y)
+    origin = y[0]
+    x = [(xi - origin).total_seconds() for xi in x]
+    y = [(yi - origin).total_seconds() for yi in y]
     return pairwise_distance(x, y, metric="minkowski", p=1)
 
 
-- 
2.43.0


From cc66c1d590c5b2487d1fcc7e34d70e94c5b1854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 44/80] fix: track with observers without matching images

---
 src/glimpse/track/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 4e56871..dd7faa0 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -292,7 +292,9 @@ class Tracker:
             observer_mask = np.ones((ntracks, len(self.observers)), dtype=bool)
         # Compute matching images
         matching_images = self.match_datetimes(datetimes=datetimes, maxdt=maxdt)
-        template_indices = np.not_equal(matching_images, None).argmax(axis=0)
+        has_image = np.not_equal(matching_images, None)
+        # NOTE: Observers without matching images have no template (-1)
+        template_indices = np.where(has_image.any(axis=0), has_image.argmax(axis=0), -1)
         # Cache matching images
         if ntracks > 1:
             for i, observer in enumerate(self.observers):
-- 
2.43.0


From 2b5cd956e4ce62d79d7d3d3d03d3453128a950e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 45/80] fix: filter image and camera coordinates of matches
 together

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2badb7a..cc0808a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -731,9 +731,9 @@ class Matches:
             )
             selected[selected] &= distances <= max_distance
         # HACK: Support for RotationMatches
-        if self.uvs:
+        if self.uvs is not None:
             self.uvs = [uv[selected] for uv in self.uvs]
-        else:
+        if getattr(self, "xys", None) is not None:
             self.xys = [xy[selected] for xy in self.xys]
         if self.weights is not None:
             self.weights = self.weights[selected]
-- 
2.43.0


From 9284ad77569e6957e691a62e395e2c456fbcba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 46/80] fix: build rotation matches from camera coordinates
 alone

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index cc0808a..f2807cb 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -540,8 +540,8 @@ class Matches:
     def _test_matches(self) -> None:
         if self.cams[0] is self.cams[1]:
             raise ValueError("Both cameras are the same object")
-        # HACK: Support subclasses with xyzs and optional uvs
-        uvs = self.uvs or self.xyzs
+        # HACK: Support subclasses with xys and optional uvs
+        uvs = self.xys if self.uvs is None else self.uvs
         if len(self.cams) != 2 or len(uvs) != 2:
             raise ValueError(
                 "Cameras and point coordinates do not have two elements each"
-- 
2.43.0


From 80b2225a194231a0919ec806772dc644f190cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 47/80] fix: set the parameters of cameras in no group

---
 src/glimpse/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f2807cb..7973b88 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1688,9 +1688,10 @@ class Cameras:
                 self.cams[j]._vector[self.group_masks[i]] = params[
                     self.group_breaks[i] : self.group_breaks[i + 1]
                 ]
-                self.cams[j]._vector[self.cam_masks[j]] = params[
-                    self.cam_breaks[j] : self.cam_breaks[j + 1]
-                ]
+        for j, cam in enumerate(self.cams):
+            cam._vector[self.cam_masks[j]] = params[
+                self.cam_breaks[j] : self.cam_breaks[j + 1]
+            ]
         if save:
             self.vectors = [cam.to_array() for cam in self.cams]
 
-- 
2.43.0


From 262bb7d95e3a0610e27b81c9fbb0bb3d7bb420b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 48/80] fix: parse camera parameters which select no elements

---
 src/glimpse/optimize.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7973b88..d6626cd 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1494,13 +1494,14 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if selection or selection == 0:
-                    i = attributes.index(key)
-                    if selection is True:
-                        positions = range(indices[i], indices[i + 1])
-                    else:
-                        positions = indices[i] + np.atleast_1d(selection)
-                    mask[positions] = True
+                i = attributes.index(key)
+                if selection is True:
+                    positions = np.arange(indices[i], indices[i + 1])
+                elif selection is False or selection is None:
+                    positions = np.array([], dtype=int)
+                else:
+                    positions = indices[i] + np.atleast_1d(selection).astype(int)
+                mask[positions] = True
                 if isinstance(value, tuple):
                     min_bounds = np.atleast_1d(value[1])
                     if len(min_bounds) == 1:
-- 
2.43.0


From b429cf6f37a44338eaea49241f6ca4c5a1b3fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 49/80] fix: draw all samples when few are possible

---
 src/glimpse/optimize.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index d6626cd..8170a50 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1,6 +1,7 @@
 """Optimize camera models to fit observations taken from images and the world."""
 import copyreg
 import datetime
+import math
 import os
 import sys
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Type, Union
@@ -2169,14 +2170,8 @@ def _ransac_samples(n: int, size: int, iterations: int = 100) -> List[int]:
     """
     if n >= size:
         raise ValueError("Sample size is larger or equal to total size")
-    # Estimate factorial with log(gamma) to avoid overflow
-    log = (
-        np.math.lgamma(size + 1) - np.math.lgamma(n + 1) - np.math.lgamma(size - n + 1)
-    )
-    if log:
-        # Compute max iterations if no float overflow
-        max_iterations = np.floor(np.exp(log))
-        iterations = min(iterations, max_iterations)
+    # Limit iterations to the number of possible samples
+    iterations = min(iterations, math.comb(size, n))
     samples = set()
     indices = np.arange(size)
     while len(samples) < iterations:
-- 
2.43.0


From 50bcc7069ab9a906217caeed68f97d1530aa43ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 50/80] fix: match keypoints when none are retained

---
 src/glimpse/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 8170a50..9afaef3 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2272,8 +2272,9 @@ def match_keypoints(
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if max_ratio:
             matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches])
-        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches])
+        uva = np.array([ka[0][m[0].queryIdx].pt for m in matches], dtype=float)
+        uvb = np.array([kb[0][m[0].trainIdx].pt for m in matches], dtype=float)
+        uva, uvb = uva.reshape(-1, 2), uvb.reshape(-1, 2)
         if return_ratios:
             ratios = np.array([m.distance / n.distance for m, n in matches])
         if max_distance:
-- 
2.43.0


From 7ff70c49987dabcfc462130b1f6fadaa03c27df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 51/80] fix: compute the ratio of keypoint matches at zero
 distance

---
 src/glimpse/optimize.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 9afaef3..e4f2a99 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2270,13 +2270,20 @@ def match_keypoints(
             matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask)
             ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
+        if compute_ratios:
+            # NOTE: Indistinguishable if both distances are zero
+            all_ratios = [
+                m.distance / n.distance if n.distance else 1.0 for m, n in matches
+            ]
         if max_ratio:
-            matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
+            valid = [ratio < max_ratio for ratio in all_ratios]
+            matches = [m for m, v in zip(matches, valid) if v]
+            all_ratios = [ratio for ratio, v in zip(all_ratios, valid) if v]
         uva = np.array([ka[0][m[0].queryIdx].pt for m in matches], dtype=float)
         uvb = np.array([kb[0][m[0].trainIdx].pt for m in matches], dtype=float)
         uva, uvb = uva.reshape(-1, 2), uvb.reshape(-1, 2)
         if return_ratios:
-            ratios = np.array([m.distance / n.distance for m, n in matches])
+            ratios = np.array(all_ratios, dtype=float)
         if max_distance:
             valid = np.linalg.norm(uva - uvb, axis=1) < max_distance
             uva, uvb = uva[valid], uvb[valid]
-- 
2.43.0


From 0665b9777ba349cc51636d508b3c95b1836b9035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 52/80] fix: restore cameras when prediction fails

---
 src/glimpse/optimize.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index e4f2a99..d2a6714 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1735,17 +1735,15 @@ class Cameras:
         if params is not None:
             vectors = [cam.to_array() for cam in self.cams]
             self.set_cameras(params)
-        if len(self.controls) == 1:
-            result = self.controls[0].predicted(index=index)
-        else:
+        try:
+            if len(self.controls) == 1:
+                return self.controls[0].predicted(index=index)
             # TODO: Map index to subindices for each control
-            result = np.vstack([control.predicted() for control in self.controls])[
-                index
-            ]
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
-        return result
+            return np.vstack([control.predicted() for control in self.controls])[index]
+        finally:
+            if params is not None:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
 
     def residuals(
         self, params: FitParams = None, index: Index = slice(None)
-- 
2.43.0


From a9a1ffa1759eb12e2f7cb76eb8134f4db3cf4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 53/80] fix: plot polynomials without unselected points

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index d2a6714..4db8978 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1107,7 +1107,7 @@ class Polynomial:
             (index, selected, "selected"),
         ]:
             if not len(idx) or args is None:
-                result = None
+                result[label] = None
                 continue
             if not isinstance(args, dict):
                 args = {"c": args}
-- 
2.43.0


From 62f28d4b41a55d562ffcbae3fcd7ce9e404edcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 54/80] fix: fit cameras iteratively with the groups and
 options of the model

---
 src/glimpse/optimize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 4db8978..12e4890 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1813,6 +1813,7 @@ class Cameras:
                 by group or camera (group, cam0, cam1, ...),
                 then ordered by position in :meth:`Camera.to_array()`.
         """
+        iter_kwargs = kwargs
         kwargs = {"nan_policy": "omit", **kwargs}
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
@@ -1852,9 +1853,13 @@ class Cameras:
                     cams=self.cams,
                     controls=self.controls,
                     cam_params=iter_cam_params,
+                    group_indices=self.group_indices,
                     group_params=iter_group_params,
+                    weights=self.weights,
+                    scales=self.scales is not None,
+                    sparsity=self.sparsity is not None,
                 )
-                values = model.fit(index=index, method=method, **kwargs)
+                values = model.fit(index=index, method=method, **iter_kwargs)
                 if values is not None:
                     model.set_cameras(params=values)
             self.update_params()
-- 
2.43.0


From b05f2d80c3bd9b94c225309eda081923067e4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 55/80] fix: accept camera groups as arrays

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 12e4890..498167a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1255,7 +1255,7 @@ class Cameras:
             cam_params = [cam_params]
         if isinstance(group_indices, int):
             group_indices = [group_indices]
-        if group_indices is not None and isinstance(group_indices[0], int):
+        if group_indices is not None and isinstance(group_indices[0], (int, np.integer)):
             group_indices = [group_indices]
         if isinstance(group_params, dict):
             group_params = [group_params]
-- 
2.43.0


From e2932c565cd6a7c876140870aebaa3dc840301f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 56/80] fix: overwrite existing keypoints

---
 src/glimpse/optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 498167a..66365f0 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2411,13 +2411,7 @@ class KeypointMatcher:
                 written = False
             keypoints = self.keypoints[i]
             read = keypoints is not None
-            if not read and written and not clear_keypoints:
-                # Read keypoints from file
-                keypoints = helpers.read_pickle(outpath)
-            elif read and not written and path:
-                # Write keypoints to file
-                helpers.write_pickle(keypoints, path=outpath)
-            elif (not read and not written) or overwrite:
+            if overwrite or (not read and not written):
                 # Detect keypoints
                 array = self._prepare_image(img.read())
                 keypoints = detect_keypoints(array, mask=masks[i], **kwargs)
@@ -2426,6 +2420,12 @@ class KeypointMatcher:
                     helpers.write_pickle(keypoints, path=outpath)
                 if clear_images:
                     img.array = None
+            elif not read and not clear_keypoints:
+                # Read keypoints from file
+                keypoints = helpers.read_pickle(outpath)
+            elif read and not written and path:
+                # Write keypoints to file
+                helpers.write_pickle(keypoints, path=outpath)
             if clear_keypoints:
                 keypoints = None
             return keypoints
-- 
2.43.0


From 7f7a7abc5fe04bab08ec89bac65e7ec150c1c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 57/80] fix: match required images to both earlier and later
 images

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 66365f0..29e16fb 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2519,7 +2519,7 @@ class KeypointMatcher:
         # Filter matched image pairs
         if imgs is not None:
             for i, m in enumerate(matching_images):
-                matching_images[i] = m[np.isin(m, imgs)]
+                matching_images[i] = m[np.isin(m, imgs) | np.isin(i, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter:
-- 
2.43.0


From 469b04c98e8cbbc22d74b05cc1e493fd6d01cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 58/80] fix: size the matrix of matches by the number of images

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 29e16fb..34f8178 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2599,7 +2599,9 @@ class KeypointMatcher:
                 )
                 cols = np.concatenate(matching_images)
                 # HACK: Initialize with numeric data to avoid type errors
-                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)))
+                matches = scipy.sparse.coo_matrix(
+                    ([1] * len(data), (rows, cols)), shape=(n, n)
+                )
                 matches.data = data
         if clear_matches:
             self.matches = None
-- 
2.43.0


From 06edfa9f113e782c4aa2e46d1937eab94a1197ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 59/80] fix: drop the keypoints of dropped images

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 34f8178..3e472ee 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2745,6 +2745,8 @@ class KeypointMatcher:
         self.matches._shape = (n, n)
         # Remove dropped images
         self.images = np.delete(self.images, drop)
+        if self.keypoints is not None:
+            self.keypoints = [self.keypoints[i] for i in keep]
 
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
-- 
2.43.0


From 4e9b65b97a351eba5b5e3a0816c946b877599ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 60/80] fix: compute match breaks with a minimum number of
 matches

---
 src/glimpse/optimize.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 3e472ee..38123c6 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2755,10 +2755,7 @@ class KeypointMatcher:
         starts, counts = np.unique(self.matches.row, return_counts=True)
         breaks = np.setdiff1d(all_starts, starts)
         if min_matches:
-            min_matches = np.minimum(
-                min_matches, len(self.images) - np.arange(len(self.images))
-            )
-            breaks = np.sort(
-                np.concatenate((breaks, np.where(counts < min_matches)[0]))
-            )
+            # Limit by the number of later images
+            min_matches = np.minimum(min_matches, len(self.images) - 1 - starts)
+            breaks = np.sort(np.concatenate((breaks, starts[counts < min_matches])))
         return breaks
-- 
2.43.0


From 0402dcffdd1955dd6511449af6fcbaa16dc99eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:05 +0000
Subject: [PATCH 61/80] fix: start the fit of observer cameras from a flat
 array

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 38123c6..4f438ea 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2077,7 +2077,7 @@ class ObserverCameras:
             return objective, gradients.ravel()
 
         # Optimize camera view directions
-        viewdirs_0 = [img.cam.viewdir for img in self.observer.images]
+        viewdirs_0 = np.ravel([img.cam.viewdir for img in self.observer.images])
         result = scipy.optimize.minimize(
             fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
         )
-- 
2.43.0


From a40cee0858b3371961fee85599fb308b29e02626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 62/80] fix: read image metadata when a camera is given without
 its image size

---
 src/glimpse/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 2b9546c..d1eb2a5 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -94,7 +94,7 @@ class Image:
             cam = {}
         if isinstance(cam, dict):
             if not (
-                "imgsz" in cam and "f" in cam or ("fmm" in cam and "sensorsz" in cam)
+                "imgsz" in cam and ("f" in cam or ("fmm" in cam and "sensorsz" in cam))
             ):
                 exif = exif or Exif(path)
                 cam = {
-- 
2.43.0


From 19dc016e2caa6acb926b30b86656779cdb5cf41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 63/80] fix: use only the image size of the metadata for a
 camera with focal length in pixels

---
 src/glimpse/image.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index d1eb2a5..32309fe 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -97,12 +97,10 @@ class Image:
                 "imgsz" in cam and ("f" in cam or ("fmm" in cam and "sensorsz" in cam))
             ):
                 exif = exif or Exif(path)
-                cam = {
-                    "imgsz": exif.imgsz,
-                    "fmm": exif.fmm,
-                    "sensorsz": exif.sensorsz,
-                    **cam,
-                }
+                defaults = {"imgsz": exif.imgsz, "sensorsz": exif.sensorsz}
+                if "f" not in cam:
+                    defaults["fmm"] = exif.fmm
+                cam = {**defaults, **cam}
             cam = Camera(**cam)
         self.cam = cam
         if not datetime:
-- 
2.43.0


From 8f7837c15b6789110ac6d7e3f7385173325c252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 64/80] fix: read a box of a resized image without caching

---
 src/glimpse/image.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 32309fe..8c1f1fd 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -169,26 +169,21 @@ class Image:
             >>> np.all(tile == a[box[1] : box[3], box[0] : box[2]])
             True
         """
-        size = self._cache_imgsz or self._path_imgsz
         cam_size = tuple(self.cam.imgsz)
-        resize = cam_size != size
-        new_array = True
-        if self.array is not None and not resize:
+        cropped = False
+        if self.array is not None and self._cache_imgsz == cam_size:
             array = self.array
-            new_array = False
         else:
             ds = osgeo.gdal.Open(self.path)
             args = {}
-            if resize:
+            if cam_size != self._path_imgsz:
                 args["buf_xsize"], args["buf_ysize"] = cam_size
-            if box is not None and not cache:
-                # Resize box to actual image size
-                xscale, yscale = size[0] / cam_size[0], size[1] / cam_size[1]
+            elif box is not None and not cache:
                 # Read image subset
-                args["xoff"] = int(round(box[0] * xscale))
-                args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
-                args["yoff"] = int(round(box[1] * yscale))
-                args["win_ysize"] = int(round((box[3] - box[1]) * yscale))
+                args["xoff"], args["yoff"] = int(box[0]), int(box[1])
+                args["win_xsize"] = int(box[2] - box[0])
+                args["win_ysize"] = int(box[3] - box[1])
+                cropped = True
             array = np.dstack(
                 [
                     ds.GetRasterBand(i + 1).ReadAsArray(**args)
@@ -200,8 +195,8 @@ class Image:
             if cache:
                 array = sharedmem.copy(array)
                 self.array = array
-        if box is not None and (cache or not new_array):
-            # Caching and cropping: Subset cached array
+        if box is not None and not cropped:
+            # Subset full array
             array = array[box[1] : box[3], box[0] : box[2]]
         return array
 
-- 
2.43.0


From 633c03f68eb05be2305de6b19335dbfee2597060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 65/80] fix: treat exif values with a zero denominator as
 missing

---
 src/glimpse/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index fe5a890..d8828bb 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -173,7 +173,8 @@ class Exif:
         if isinstance(value, bytes):
             return value.decode()
         if isinstance(value, tuple) and len(value) == 2:
-            return value[0] / value[1]
+            # Zero denominator means unknown
+            return value[0] / value[1] if value[1] else None
         return value
 
     def dump(self) -> bytes:
-- 
2.43.0


From fcf2a3717b27ecbbe713a69d9d16237ee6b5a759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 66/80] fix: separate adjacent svg path commands

---
 src/glimpse/svg.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index a964de2..09256cc 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -659,19 +659,12 @@ class Points:
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
         regex = {
-            "cmd": re.compile(r"[a-df-zA-DF-Z]+"),
-            "seq": re.compile(r"[^a-df-zA-DF-Z]+"),
+            "cmd": re.compile(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)"),
             "coord": COORD_REGEX,
         }
-        commands = regex["cmd"].findall(d)
-        parameters = [
-            [_num(coord) for coord in regex["coord"].findall(seq)]
-            for seq in regex["seq"].findall(d)
-        ]
-        if commands and commands[-1] in ("Z", "z"):
-            parameters.append([])
         xy = []
-        for cmd, params in zip(commands, parameters):
+        for cmd, seq in regex["cmd"].findall(d):
+            params = [_num(coord) for coord in regex["coord"].findall(seq)]
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
-- 
2.43.0


From bc6530f000a98f190259ef94526b7852c83f471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 67/80] fix: close svg subpaths at their own start

---
 src/glimpse/svg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 09256cc..9977705 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -663,8 +663,12 @@ class Points:
             "coord": COORD_REGEX,
         }
         xy = []
+        start = 0
         for cmd, seq in regex["cmd"].findall(d):
             params = [_num(coord) for coord in regex["coord"].findall(seq)]
+            if cmd in ("M", "m"):
+                # Start of new subpath
+                start = len(xy)
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
@@ -719,7 +723,7 @@ class Points:
                     xy.append((xy[-1][0] + dx, xy[-1][1] + dy))
             # closePath: Z | z
             elif cmd in ("Z", "z"):
-                xy.append(xy[0])
+                xy.append(xy[start])
             else:
                 raise ValueError(f"Invalid command encountered: {cmd}")
         return cls(xy)
-- 
2.43.0


From 0178c8bc6df6fbcd4f95a5bca2a80d364f638a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 68/80] fix: write single points and empty shapes as svg
 elements

---
 src/glimpse/svg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 9977705..701a08d 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -585,7 +585,8 @@ class Points:
         return pts
 
     def _to_polygon(self) -> Polygon:
-        xy = self.xy[:-1] if self.closed() else self.xy
+        closed = len(self.xy) > 1 and self.closed()
+        xy = self.xy[:-1] if closed else self.xy
         return {"points": self._xy_to_points(xy)}
 
     @classmethod
@@ -731,7 +732,8 @@ class Points:
     def _to_path(self) -> Path:
         # NOTE: Uses only moveTo (`M`), lineTo (`L`), and closePath (`Z`) if closed.
         commands = []
-        for i, xy in enumerate(self.xy[:-1] if self.closed() else self.xy):
+        closed = len(self.xy) > 1 and self.closed()
+        for i, xy in enumerate(self.xy[:-1] if closed else self.xy):
             x, y = xy
             if i == 0:
                 cmd = f"M {x},{y}"
@@ -740,7 +742,7 @@ class Points:
             else:
                 cmd = f"{x},{y}"
             commands.append(cmd)
-        if self.closed():
+        if closed:
             commands.append("Z")
         return {"d": " ".join(commands)}
 
-- 
2.43.0


From 001a43c960edc76ce952368882fd2dcc829ebc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 69/80] fix: accept space before the parameters of svg
 transforms

---
 src/glimpse/svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 701a08d..68124d5 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -551,7 +551,7 @@ class Points:
             ValueError: Unsupported (or invalid) transform function: magic
         """
         points = self
-        for func, params in re.findall(r"([A-Za-z]+)\(([^\)]*)\)", transform):
+        for func, params in re.findall(r"([A-Za-z]+)\s*\(([^\)]*)\)", transform):
             method = getattr(points, func, None)
             if not method:
                 raise ValueError(f"Unsupported (or invalid) transform function: {func}")
-- 
2.43.0


From f65f1a7f0d63938cf466c5c96c6bdaf96ca49549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 70/80] fix: write json with flat arrays without indentation

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index ba6eea9..de3cdfb 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -289,7 +289,8 @@ def write_json(
         '{\n  "x": [0, 1]\n}'
     """
     txt = json.dumps(obj, **kwargs)
-    if flat_arrays and kwargs.get("indent") >= 0:
+    indent = kwargs.get("indent")
+    if flat_arrays and (isinstance(indent, str) or (indent is not None and indent >= 0)):
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
         squished_sep = re.sub(r"\s", "", sep)
-- 
2.43.0


From 59a21ad417cbc85f6081a7c17c947379c2608609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 71/80] fix: keep strings unchanged when flattening json arrays

---
 src/glimpse/helpers.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index de3cdfb..4307d27 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -294,11 +294,23 @@ def write_json(
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
         squished_sep = re.sub(r"\s", "", sep)
+        string = r'"(?:[^"\\]|\\.)*"'
+
+        def squish(match: Match) -> str:
+            part = match.group(0)
+            if part.startswith('"'):
+                return part
+            return sep if part == squished_sep else ""
 
         def flatten(match: Match) -> str:
-            return re.sub(squished_sep, sep, re.sub(r"\s", "", match.group(0)))
+            part = match.group(0)
+            if part.startswith('"'):
+                return part
+            return re.sub(rf"{string}|\s+|{re.escape(squished_sep)}", squish, part)
 
-        txt = re.sub(r"(\[\s*)+[^\]\{]*(\s*\])+", flatten, txt)
+        txt = re.sub(
+            rf'{string}|(\[\s*)+(?:{string}|[^\]\{{"])*(\s*\])+', flatten, txt
+        )
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From bf4c5c81798add27d421d19706c0da08ebc2993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 72/80] fix: bounds of boolean arrays without deprecated numpy
 alias

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 4307d27..6020038 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -110,7 +110,7 @@ def numpy_dtype_minmax(
     if issubclass(dtype.type, np.integer):
         info = np.iinfo(dtype)
         return info.min, info.max
-    if dtype.type in (np.bool_, np.bool):
+    if dtype.type is np.bool_:
         return False, True
     raise ValueError("Cannot determine min, max for " + str(dtype))
 
-- 
2.43.0


From 3d430f0217a9b4289405f8d5d796c8c7e992929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 73/80] fix: write pickles that are not binary

---
 src/glimpse/helpers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 6020038..8dae996 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -219,11 +219,13 @@ def write_pickle(
         **kwargs: Optional arguments to :func:`pickle.dump`.
     """
     pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)
-    mode = "wb" if binary else "w"
+    if not binary:
+        # Text protocol
+        kwargs = {"protocol": 0, **kwargs}
     if gz:
-        fp = gzip.open(path, mode=mode)
+        fp = gzip.open(path, mode="wb")
     else:
-        fp = open(path, mode=mode)
+        fp = open(path, mode="wb")
     pickle.dump(obj, file=fp, **kwargs)
     fp.close()
 
@@ -238,11 +240,10 @@ def read_pickle(path: str, gz: bool = False, binary: bool = True, **kwargs: Any)
         binary: Whether pickle is binary.
         **kwargs: Optional arguments to :func:`pickle.load`.
     """
-    mode = "rb" if binary else "r"
     if gz:
-        fp = gzip.open(path, mode=mode)
+        fp = gzip.open(path, mode="rb")
     else:
-        fp = open(path, mode=mode)
+        fp = open(path, mode="rb")
     obj = pickle.load(fp, **kwargs)
     fp.close()
     return obj
-- 
2.43.0


From 9af1dd322f20be046a804f9cea050f1565df6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 74/80] fix: select datetimes from an empty sequence

---
 src/glimpse/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 8dae996..0d7e044 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1668,6 +1668,8 @@ def select_datetimes(
     """
     datetimes = np.asarray(datetimes)
     selected = np.ones(datetimes.shape, dtype=bool)
+    if not len(datetimes):
+        return selected
     if start:
         selected &= datetimes >= start
     else:
-- 
2.43.0


From 76bdda4e658aeae9f35d3567db169e82689f777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 75/80] fix: optimize external camera parameters chosen by a
 single index or an array

---
 src/glimpse/convert/converter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 90c3cb3..205eeb4 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -115,7 +115,11 @@ class Converter:
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
         # Drop empty params and normalize value as a numpy index
-        indices = {k: slice(None) if v is True else v for k, v in params.items() if v}
+        indices = {
+            k: slice(None) if v is True else np.atleast_1d(v).astype(int)
+            for k, v in params.items()
+            if v is True or (v is not False and v is not None and np.size(v))
+        }
         x0 = []
         for key, idx in indices.items():
             value = np.atleast_1d(getattr(self.xcam, key))
@@ -125,7 +129,7 @@ class Converter:
             i = 0
             for key, idx in indices.items():
                 value = np.atleast_1d(getattr(self.xcam, key)).astype(float)
-                n = len(value) if isinstance(idx, slice) else len(np.atleast_1d(idx))
+                n = len(value[idx])
                 value[idx] = x[i : i + n]
                 setattr(self.xcam, key, tuple(value) if len(value) > 1 else value[0])
                 i += n
-- 
2.43.0


From 6735c91cfcf7ee79b9ebf1be3005d57a30c603b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 76/80] fix: use at least one point per dimension in the grid
 of a converter

---
 src/glimpse/convert/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 205eeb4..7ac35f3 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -56,9 +56,9 @@ class Converter:
         d = np.sqrt(area / n)
         # Place points such that spacing to edge is half of interpoint spacing
         # - | -- | -- | -- | -
-        dx = imgsz[0] / round(imgsz[0] / d)
+        dx = imgsz[0] / max(1, round(imgsz[0] / d))
         x = np.arange(0.5 * dx, imgsz[0], dx)
-        dy = imgsz[1] / round(imgsz[1] / d)
+        dy = imgsz[1] / max(1, round(imgsz[1] / d))
         y = np.arange(0.5 * dy, imgsz[1], dy)
         return np.reshape(np.meshgrid(x, y), (2, -1)).T
 
-- 
2.43.0


From c7459ed81fe584a7003cff91cabdf2a480dfb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:29 +0000
Subject: [PATCH 77/80] fix: rasterize values of any depth in Camera.rasterize

Documented (n, d) values raised ValueError for d > 1.
---
 src/glimpse/camera.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index ba6f4f8..5fdd180 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -842,7 +842,8 @@ class Camera:
             values: Point values (n, ) or (n, d).
 
         Returns:
-            Image array (float) of mean values of the same dimensions as :attr:`imgsz`.
+            Image array (float) of mean values of the same dimensions as :attr:`imgsz`
+            (with a third dimension of depth d if `values` is (n, d) and d > 1).
             Pixels without points are `NaN`.
 
         Example:
@@ -855,6 +856,8 @@ class Camera:
         """
         mask = self.inframe(uv)
         a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
+        if np.ndim(values) > 1 and values.shape[1] > 1:
+            a = np.full((*a.shape, values.shape[1]), np.nan)
         # Points on the right and bottom edges belong to the last pixel
         ij = np.minimum(uv[mask].astype(int), self.imgsz - 1)
         helpers.rasterize_points(ij[:, 1], ij[:, 0], values[mask], a=a)
-- 
2.43.0


From a2c3d2851f5699a30ebad1593c058ec885505fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:29 +0000
Subject: [PATCH 78/80] fix: start Raster.rasterize from missing values

Cells without points kept the raster's own values, and the means of an
integer raster were truncated; the documentation promises a float array.
---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 8564167..50b4594 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1117,7 +1117,7 @@ class Raster(Grid):
         """
         mask = self.inbounds_xy(xy)
         rowcol = self.xy_to_rowcol(xy[mask, :], snap=True)
-        array = self.array.copy()
+        array = np.full(self.array.shape, np.nan)
         helpers.rasterize_points(rowcol[:, 0], rowcol[:, 1], values[mask], a=array)
         return array
 
-- 
2.43.0


From a531ebe8a43f8090d02ea18584e9c7482981f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:29 +0000
Subject: [PATCH 79/80] fix: return float samples from Raster.sample

Samples outside the raster with an integer fill value truncated all samples
to integers, and sampling the grid of a single integer cell raised an error.
---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 50b4594..ce01773 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -993,7 +993,8 @@ class Raster(Grid):
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
+                shape = len(xy[1]), len(xy[0])
+                samples = np.full(shape, self.array.flat[0], dtype=float)
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
@@ -1001,7 +1002,7 @@ class Raster(Grid):
         else:
             # Sample at points
             if has_fill:
-                samples = np.full(len(xy), fill_value)
+                samples = np.full(len(xy), fill_value, dtype=float)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
                 self.Zf.bounds_error = False
-- 
2.43.0


From 40ec278e263a05c34bc99543a6ff8fbb9d933a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:12 +0000
Subject: [PATCH 80/80] fix: a single principal point offset in millimetres
 applies to x only, in the constructor as in the setter and in pixels

---
 src/glimpse/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 5fdd180..3d25fec 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -106,7 +106,8 @@ class Camera:
             raise ValueError("Focal length (f or fmm) is missing")
         self.f = f
         if cmm is not None:
-            c = helpers.format_list(cmm, length=2) * self.imgsz / self.sensorsz
+            offset = helpers.format_list(cmm, length=2, default=0)
+            c = offset * self.imgsz / self.sensorsz
         if c is None:
             c = (0, 0)
         self.c = c
-- 
2.43.0

