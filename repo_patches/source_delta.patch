From d636ae000479e74ce31605f5285ff764f9584d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 01/39] fix: angle between (anti)parallel vectors was NaN when
 rounding pushed the cosine past 1

---
 attitude/geom/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index 5ef2bca..c7e15f8 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -61,7 +61,8 @@ def angle(v1,v2, cos=False):
     """
     n = (norm(v1)*norm(v2))
     _ = dot(v1,v2)/n
-    return _ if cos else N.arccos(_)
+    # Rounding can push the cosine of (anti)parallel vectors out of range
+    return _ if cos else N.arccos(N.clip(_,-1,1))
 
 class Plane(N.ndarray):
     def hessian_normal(plane):
-- 
2.43.0


From 3713ed5d169462d35f8e943a85f97888fbce7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 02/39] fix: drawing error surfaces flipped the axes of the fit
 in place

---
 attitude/display/polar.py   | 2 +-
 attitude/orientation/pca.py | 7 ++++---
 attitude/stereonet.py       | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/attitude/display/polar.py b/attitude/display/polar.py
index b83c055..4fad9c4 100644
--- a/attitude/display/polar.py
+++ b/attitude/display/polar.py
@@ -27,7 +27,7 @@ def pole_error(ax, fit, *args, **kwargs):
     ell = ellipse()
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 327df06..04803e2 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -401,8 +401,9 @@ class PCAOrientation(BaseOrientation):
 
     def as_conic(self, level=1):
 
-        if dot(self.axes[2],vector(0,0,1)) < 0:
-            self.axes *= -1
+        axes = self.axes
+        if dot(axes[2],vector(0,0,1)) < 0:
+            axes = -axes
 
         cov = self.covariance_matrix
         idx = N.diag_indices(3)
@@ -416,7 +417,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate ellipse matrix into cartesian
         # plane
-        R = augment(self.axes)
+        R = augment(axes)
         return ell.transform(R)
 
     def as_hyperbola(self, rotated=False):
diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index d73210b..5ce06e3 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -49,7 +49,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
     ell = ellipse(**kwargs)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
@@ -129,7 +129,7 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-- 
2.43.0


From 04c997f4271b91c5ec3398723f279f84d5ba377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 03/39] fix: rake and dip direction of an exactly horizontal
 plane were NaN

---
 attitude/orientation/pca.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 04803e2..7e7bf61 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -225,6 +225,11 @@ class PCAOrientation(BaseOrientation):
         v[-1] = 1
         self._vertical = v
         self.strike = N.cross(self.normal,self._vertical)
+        if len(self.normal) == 3 and not self.strike.any():
+            # Horizontal plane: use the conventional strike, so that
+            # the dip direction (and rake) stay defined
+            s = N.radians(self.strike_dip()[0])
+            self.strike = -N.array([N.sin(s),N.cos(s),0])
         try:
             self.dip_dr = normalize(N.cross(self.strike,self.normal))
         except ValueError:
-- 
2.43.0


From a2d88ccba147f8fe8906191b31e075d4cb88a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:25 +0000
Subject: [PATCH 04/39] fix: a rejected group left some of its members pointing
 to it

---
 attitude/orientation/grouped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index e228ac2..ff604ba 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -19,13 +19,16 @@ class GroupedOrientation(PCAOrientation):
         for o in orientations:
             if hasattr(o,'members'):
                 raise GroupedPlaneError("Cannot group already-grouped planes")
-            o.member_of = self
 
         self.members = orientations
 
         super().__init__(array,**kwargs)
         self.mean = all_values.mean(axis=0)
 
+        # Only claim members once the group is known to be valid
+        for o in orientations:
+            o.member_of = self
+
     def to_mapping(self,**values):
         values.setdefault('centered_array',None)
         values['members'] = [a.hash for a in self.members]
-- 
2.43.0


From 752840c75f62c2d50d1b4c8ec9db9d1c8f7c97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:25 +0000
Subject: [PATCH 05/39] fix: create_groups lost track of existing group
 membership

---
 attitude/orientation/grouped.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index ff604ba..0a2693f 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -43,11 +43,18 @@ def create_groups(orientations, *groups, **kwargs):
     # Copy all datasets to be safe (this could be bad for
     # memory usage, so can be disabled).
     if kwargs.pop('copy', True):
-        orientations = [copy(o) for o in orientations]
+        copies = {id(o): copy(o) for o in orientations}
+        orientations = [copies[id(o)] for o in orientations]
+        # Existing groups must refer to the copies of their members
+        for o in orientations:
+            if hasattr(o,'members'):
+                o.members = tuple(copies[id(a)] if id(a) in copies else copy(a)
+                                  for a in o.members)
 
+    # Get rid of and recreate group membership
     for o in orientations:
-        # Get rid of and recreate group membership
         o.member_of = None
+    for o in orientations:
         try:
             grouped += o.members
             for a in o.members:
@@ -69,6 +76,7 @@ def create_groups(orientations, *groups, **kwargs):
     for uid_list in groups:
         vals = [find(uid) for uid in uid_list]
         o = GroupedOrientation(*vals, **kwargs)
+        grouped += vals
         orientations.append(o)
 
     return orientations
-- 
2.43.0


From 9105cf8f472e800da59215ace0f98cf8ce7547de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:45 +0000
Subject: [PATCH 06/39] fix: rotation between vectors used an elementwise
 instead of a matrix exponential

---
 attitude/coordinates/rotations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/attitude/coordinates/rotations.py b/attitude/coordinates/rotations.py
index 10d30e5..3c2cb86 100644
--- a/attitude/coordinates/rotations.py
+++ b/attitude/coordinates/rotations.py
@@ -5,8 +5,9 @@ Prior art: http://bl.ocks.org/ivyywang/7c94cb5a3accd9913263
 """
 from __future__ import division
 import numpy as N
+from scipy.linalg import expm
 from mplstereonet import stereonet_math, stereonet2xyz, xyz2stereonet
-from ..geom.util import angle, vector, dot
+from ..geom.util import angle, vector, dot, perpendicular_vector
 
 def transform(v1, v2):
     """
@@ -17,13 +18,16 @@ def transform(v1, v2):
     """
     theta = angle(v1,v2)
     x = N.cross(v1,v2)
+    if not x.any():
+        # Parallel or opposite vectors can be rotated on any perpendicular
+        x = perpendicular_vector(v1)
     x = x / N.linalg.norm(x)
 
     A = N.array([
         [0, -x[2], x[1]],
         [x[2], 0, -x[0]],
         [-x[1], x[0], 0]])
-    R = N.exp(A*theta)
+    R = expm(A*theta)
 
     return R
 
-- 
2.43.0


From 1db8232052e4eb5373634921bdc65a0c312eea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:45 +0000
Subject: [PATCH 07/39] fix: conversion from spherical coordinates swapped x
 and y

---
 attitude/coordinates/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/coordinates/__init__.py b/attitude/coordinates/__init__.py
index a407156..9ed2531 100644
--- a/attitude/coordinates/__init__.py
+++ b/attitude/coordinates/__init__.py
@@ -12,8 +12,8 @@ def cartesian(spherical):
     r,theta,phi = spherical
     z = r*N.cos(theta)
     zc = r*N.sin(theta)
-    x = zc*N.sin(phi)
-    y = zc*N.cos(phi)
+    x = zc*N.cos(phi)
+    y = zc*N.sin(phi)
     return x,y,z
 
 def centered(coordinates):
-- 
2.43.0


From 8458a20d6b4c134eb713ddbc61acdb54548ad8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:00 +0000
Subject: [PATCH 08/39] fix: conic major axes and slice bases were wrong for
 anything but spheres

---
 attitude/geom/conics.py | 6 ++++--
 attitude/geom/util.py   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 1245220..fc9990b 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -83,8 +83,9 @@ class Conic(N.ndarray):
         """
         _ = ell[:-1,:-1]
         U,s,V = N.linalg.svd(_)
-        scalar = -(ell.sum()-_.sum())
-        return N.sqrt(s*scalar)*V
+        # Value of the quadratic form at the center of the conic
+        scalar = -ell.solve(augment(ell.center()))
+        return N.sqrt(scalar/s)[:,N.newaxis]*V
 
     def __type(self):
         return N.linalg.det(self[:-1,:-1])
@@ -152,6 +153,7 @@ class Conic(N.ndarray):
             n = plane.normal()
             v1 = perpendicular_vector(n)
             if dim == 3:
+                v1 = v1/N.linalg.norm(v1)
                 v2 = N.cross(v1,n)
                 axes = (v1,v2)
             elif dim == 2:
diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index c7e15f8..6297e28 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -96,7 +96,7 @@ def perpendicular_vector(n):
     """
     dim = len(n)
     if dim == 2:
-        return n[::-1]
+        return N.array([-n[1],n[0]])
     # More complex in 3d
     for ix in range(dim):
         _ = N.zeros(dim)
-- 
2.43.0


From bb6f8817a02d7af83fb10c1b76789608b939d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 09/39] fix: text fields with quotes, backslashes or markup
 broke the notebook widget

---
 attitude/display/nbextension.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/attitude/display/nbextension.py b/attitude/display/nbextension.py
index 45a40da..ec2f7d3 100644
--- a/attitude/display/nbextension.py
+++ b/attitude/display/nbextension.py
@@ -32,7 +32,7 @@ def init_notebook_mode():
 __TEMPLATE__ = """
 <div id='a__<<<hash>>>'></div>
 <script type='text/javascript'>
-  var data=JSON.parse('<<<data>>>');
+  var data=<<<data>>>;
   attitudeUI(document.querySelector('#a__<<<hash>>>'),data);
 </script>
 """
@@ -44,7 +44,8 @@ def plot_interactive(attitudes):
                  if hasattr(a,'to_mapping') else a
                  for a in attitudes]
 
-    data = dumps(attitudes)
+    # Don't let text fields close the script element
+    data = dumps(attitudes).replace("<","\\u003c")
     script = __TEMPLATE__.replace("<<<data>>>",data)
 
     classname = "A"+str(uuid4())
-- 
2.43.0


From 9e68904b64804d258202484ba8331ceceeba21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 10/39] fix: link to the javascript library used in notebooks
 pointed to a moved directory

---
 attitude/display/lib | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/lib b/attitude/display/lib
index 25a333a..64a739a 120000
--- a/attitude/display/lib
+++ b/attitude/display/lib
@@ -1 +1 @@
-../../js-frontend/lib
\ No newline at end of file
+../../frontend/packages/attitude/lib
\ No newline at end of file
-- 
2.43.0


From f4bebc434784e5c955d415c308e16c6932398a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 11/39] fix: regression on a 3 x n array centered along the
 wrong axis

---
 attitude/orientation/linear/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/linear/regression.py b/attitude/orientation/linear/regression.py
index 78c3740..4e4a726 100644
--- a/attitude/orientation/linear/regression.py
+++ b/attitude/orientation/linear/regression.py
@@ -22,9 +22,10 @@ class Regression(object):
         Solves plane equation Z = a(C[0])+b(C[1])+c by solving linear equation Cm=Z where m=[a,b,c]
         C and Z are the dependent and independent variables, respectively.
         """
-        coordinates = centered(N.array(coordinates))
+        coordinates = N.array(coordinates)
         if len(coordinates[0]) > 3:
             coordinates = N.swapaxes(coordinates, 0, 1)
+        coordinates = centered(coordinates)
 
         self.C = add_ones(coordinates[:,0:2])
         self.Z = coordinates[:,-1]
-- 
2.43.0


From 07659f7419f336b27ebe8c1d8830c48ce2e75fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 12/39] fix: fit_angle ignored its degrees argument

---
 attitude/geom/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/__init__.py b/attitude/geom/__init__.py
index c05651c..b9f542c 100644
--- a/attitude/geom/__init__.py
+++ b/attitude/geom/__init__.py
@@ -18,7 +18,8 @@ def fit_angle(fit1, fit2, degrees=True):
     """
     Finds the angle between the nominal vectors
     """
-    return N.degrees(angle(fit1.normal,fit2.normal))
+    a = angle(fit1.normal,fit2.normal)
+    return N.degrees(a) if degrees else a
 
 def fit_similarity(fit1, fit2):
     """
-- 
2.43.0


From 4b9adeae9a76660b3dd0c8f434c2ab2c165314d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 13/39] fix: hyperbolic errors of a two-dimensional fit failed
 without explicit axes

---
 attitude/display/hyperbola.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attitude/display/hyperbola.py b/attitude/display/hyperbola.py
index 4e4feb9..1e5069d 100644
--- a/attitude/display/hyperbola.py
+++ b/attitude/display/hyperbola.py
@@ -76,6 +76,8 @@ def hyperbolic_errors(hyp_axes, xvals,
     else:
         # We have a 2d geometry
         h1 = hyp
+        if axes is None:
+            axes = N.identity(2)
 
     # Major axes of the conic sliced in the requested viewing
     # geometry
@@ -132,6 +134,8 @@ def hyperbolic_errors_parametric(hyp_axes, xvals=None,
     else:
         # We have a 2d geometry
         h1 = hyp
+        if axes is None:
+            axes = N.identity(2)
 
     # Major axes of the conic sliced in the requested viewing
     # geometry
-- 
2.43.0


From 4cc8cf0fbb51ea98c93424082c015f50f5884584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:32 +0000
Subject: [PATCH 14/39] fix: centroid of a group of planes used an undefined
 name

---
 frontend/packages/attitude/src/util.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/util.ts b/frontend/packages/attitude/src/util.ts
index e2bf71b..bcafa01 100644
--- a/frontend/packages/attitude/src/util.ts
+++ b/frontend/packages/attitude/src/util.ts
@@ -33,7 +33,7 @@ const computeCentroidAverage = function(planes){
     return d.center.map(a => a*len);
   });
 
-  const overallCenter = [0, 1, 2].map(i => d3.sum(weights, d => d[i]/totalLength));
+  const overallCenter = [0, 1, 2].map(i => sum(weights, d => d[i]/totalLength));
   return overallCenter;
 };
 
-- 
2.43.0


From 3dd6bc329bdcefc7411497a08a91331fc05fb7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:03 +0000
Subject: [PATCH 15/39] fix: DEM extraction relied on mutable geometries
 removed in shapely 2

---
 attitude/helpers/dem.py           |  2 +-
 attitude/helpers/interpolation.py | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index 881198d..cfe1146 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -7,7 +7,7 @@ from rasterio.features import rasterize, geometry_mask
 from affine import Affine
 from subdivide import subdivide
 
-from shapely.geometry import shape, mapping, asShape
+from shapely.geometry import shape, mapping
 from shapely.ops import transform
 
 from .interpolation import bilinear
diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index 256afa8..c24978b 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -9,20 +9,19 @@ Possible options are:
 
 """
 from __future__ import division
-from shapely.geometry import MultiLineString
+from shapely.geometry import MultiLineString, Point
 
 def __factory__(order):
     def interpolate(array,geometry):
         """Interpolates geometries to the specified order"""
         import numpy as N
         from scipy.ndimage import map_coordinates
-        from shapely.geometry import shape, mapping, asLineString
 
         if hasattr(array, 'mask'):
             array = array.astype(float).filled(N.nan)
 
         def point_handler(coords):
-            return line_handler([coords])[0]
+            return line_handler(coords)[0]
 
         def line_handler(coords):
             coordinates = N.array(coords)
@@ -35,13 +34,12 @@ def __factory__(order):
             return list(map(tuple, coordinates))
 
         if geometry.geom_type == "Point":
-            geometry.coords  = point_handler(geometry.coords)
+            return Point(point_handler(geometry.coords))
         elif geometry.geom_type == "MultiLineString":
-            return MultiLineString([line_handler(g.coords) for g in geometry])
+            return MultiLineString([line_handler(g.coords) for g in geometry.geoms])
         else:
-            geometry.coords  = line_handler(geometry.coords)
+            return type(geometry)(line_handler(geometry.coords))
 
-        return geometry
     return interpolate
 
 nearest = __factory__(0)
-- 
2.43.0


From 2789df2cbe1d6c0db7dbbc259d5f1098a384519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:21 +0000
Subject: [PATCH 16/39] fix: elevations of lines near the edge of the
 extraction window were clamped

---
 attitude/helpers/dem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index cfe1146..b7896b0 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -65,7 +65,7 @@ def extract_line(geom, dem, **kwargs):
     coords_in = coords_array(geom)
 
     # Transform geometry into pixels
-    f = lambda *x: ~dem.transform * x
+    f = lambda *x: ~dem.transform * (x[0],x[1])
     px = transform(f,geom)
 
     # Subdivide geometry segments if option is given
@@ -82,9 +82,11 @@ def extract_line(geom, dem, **kwargs):
     # Does not deal with edge cases where points
     # are outside of footprint of DEM
 
-    coords_px = coords_array(px)
-    mins = N.floor(coords_px.min(axis=0))
-    maxs = N.ceil(coords_px.max(axis=0))
+    # Pixel values are referenced to pixel centers, so we need a
+    # half-pixel margin (within the DEM) to interpolate
+    coords_px = coords_array(px)[:,:2]
+    mins = N.maximum(N.floor(coords_px.min(axis=0)-0.5), 0)
+    maxs = N.minimum(N.ceil(coords_px.max(axis=0)+0.5), dem.shape[::-1])
 
     window = tuple((int(mn),int(mx))
         for mn,mx in zip(mins[::-1],maxs[::-1]))
-- 
2.43.0


From b796b68c54c229c6851c237e6538305816d4dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:42 +0000
Subject: [PATCH 17/39] fix: bootstrapped error comparison failed on an
 undefined name

---
 attitude/display/error_comparison.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/display/error_comparison.py b/attitude/display/error_comparison.py
index 7932d1c..886aff3 100644
--- a/attitude/display/error_comparison.py
+++ b/attitude/display/error_comparison.py
@@ -8,7 +8,7 @@ from ..geom.util import vector
 from .plot.cov_types import hyperbola, bootstrap_noise, augment, ci
 from .hyperbola import HyperbolicErrors
 
-def bootstrap_ci(deskewed_data):
+def bootstrap_ci(deskewed_data, xvals):
     # Bootstrap with noise std greater of 1m or the standard deviation of residuals
     # (in this case about 1m)
     def func(arr):
@@ -72,7 +72,7 @@ def error_comparison(fit, do_bootstrap=False, **kwargs):
     err.plot(ax, fc='dodgerblue', alpha=0.3, label="Noise-based")
 
     if do_bootstrap:
-        err_bands = bootstrap_ci(deskewed_data)
+        err_bands = bootstrap_ci(deskewed_data, xvals)
         ax.fill_between(xvals, *err_bands, facecolor="none",edgecolor='blue',
                         alpha=.5, label="Noise bootstrap",linestyle='--')
 
-- 
2.43.0


From 9eccdd821dfd137b69cd549d8e87a8c00909c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:39 +0000
Subject: [PATCH 18/39] fix: recovering the saved fit of exactly planar data
 gave NaN axes

---
 attitude/orientation/pca.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 7e7bf61..50aa475 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -204,6 +204,9 @@ class PCAOrientation(BaseOrientation):
         # In this case, axes must be equivalent
         # to self.axes*self.singular_values
         s = N.linalg.norm(axes,axis=0)
+        if not s.all():
+            # Exactly planar data: part of the axes is lost to the scaling
+            return self.__run_svd()
         self.V = axes/s
         # Don't compute U unless we have to
         self._U = None
-- 
2.43.0


From 75e38214f13bd2c739291b779ba8132c791bf090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:47 +0000
Subject: [PATCH 19/39] fix: iterative error surfaces of exactly vertical
 planes swapped the sheets

---
 attitude/stereonet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 5ce06e3..9bd38a5 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -175,7 +175,7 @@ def iterative_plane_errors(axes,covariance_matrix, **kwargs):
     scales = dict(upper=1,lower=-1,nominal=0)
     c1 = scales[sheet]*2 # We double the scale of errors since they are symmetrical
     c1 *= -1 # We assume upper hemisphere
-    if axes[2,2] < 0:
+    if axes[2,2] <= 0:
         c1 *= -1
 
     def sdot(a,b):
-- 
2.43.0


From ad0d39e604c51d0ee81691dae3f2aae8a412a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:19 +0000
Subject: [PATCH 20/39] fix: rotation between nearly opposite vectors used a
 cross product of rounding noise

---
 attitude/coordinates/rotations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/coordinates/rotations.py b/attitude/coordinates/rotations.py
index 3c2cb86..d3bdaf8 100644
--- a/attitude/coordinates/rotations.py
+++ b/attitude/coordinates/rotations.py
@@ -18,8 +18,8 @@ def transform(v1, v2):
     """
     theta = angle(v1,v2)
     x = N.cross(v1,v2)
-    if not x.any():
-        # Parallel or opposite vectors can be rotated on any perpendicular
+    if N.linalg.norm(x) < 1e-8*N.linalg.norm(v1)*N.linalg.norm(v2):
+        # (Nearly) parallel or opposite vectors can be rotated on any perpendicular
         x = perpendicular_vector(v1)
     x = x / N.linalg.norm(x)
 
-- 
2.43.0


From 5bbd40d7bf345d3eeff8940242bdbf2fe7628a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 21/39] fix: hyperboloids of two sheets were classified as
 ellipsoids

---
 attitude/geom/conics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index fc9990b..edff8dd 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -95,10 +95,13 @@ class Conic(N.ndarray):
         Check that geometry is an ellipse,
         ellipsoid, or n-dimensional equivalent.
         """
-        return self.__type() > 0
+        # The determinant alone cannot tell an ellipsoid from
+        # a hyperboloid of two sheets
+        s = N.sign(N.linalg.eigvalsh(self[:-1,:-1]))
+        return bool(self.__type() != 0 and abs(s.sum()) == len(s))
 
     def is_hyperbolic(self):
-        return self.__type() < 0
+        return bool(self.__type() != 0 and not self.is_elliptical())
 
     def is_parabolic(self):
         return self.__type() == 0
-- 
2.43.0


From 4c628e0d0de0c1847413a9cde981dd8f47c64751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:03 +0000
Subject: [PATCH 22/39] fix: angle subtended from a viewpoint other than the
 origin measured the offset from the origin

---
 attitude/geom/conics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index edff8dd..279bfc0 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -16,6 +16,10 @@ def angle_subtended(ell, **kwargs):
         viewpoint   Defaults to origin
     """
     return_tangent = kwargs.pop('tangent',False)
+    viewpoint = kwargs.pop('viewpoint', None)
+    if viewpoint is not None:
+        # See the conic from the origin
+        ell = ell.translate(-N.asarray(viewpoint))
 
     con, transform, offset = ell.projection(**kwargs)
     v = N.linalg.norm(N.array(con.major_axes()),axis=1)
-- 
2.43.0


From 1c61bd01fc436b3aafe8461f0ed763d46fafe6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:28 +0000
Subject: [PATCH 23/39] fix: convolveAxes scaled rows instead of columns and
 was not the inverse of deconvolveAxes

---
 frontend/packages/attitude/src/math.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/math.ts b/frontend/packages/attitude/src/math.ts
index 9765816..5fd5cca 100644
--- a/frontend/packages/attitude/src/math.ts
+++ b/frontend/packages/attitude/src/math.ts
@@ -231,7 +231,8 @@ const convolveAxes = function (axes, sv) {
   // In case we don't pass normalized axes
   let residual;
   [residual, axes] = deconvolveAxes(axes);
-  return axes.map((row, i) => row.map((e) => e * sv[i]));
+  // Columns are scaled, as in the python module's `principal_axes`
+  return axes.map((row) => row.map((e, i) => e * sv[i]));
 };
 
 var deconvolveAxes = function (axes) {
-- 
2.43.0


From 3b4162d1d641679e32d6bef9e36e51ae1a06388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 24/39] fix: mean of the raw points of a plane was computed
 with a shadowed function

---
 frontend/packages/attitude/src/hyperbola.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/hyperbola.ts b/frontend/packages/attitude/src/hyperbola.ts
index 77574d5..bd5fab0 100644
--- a/frontend/packages/attitude/src/hyperbola.ts
+++ b/frontend/packages/attitude/src/hyperbola.ts
@@ -6,7 +6,7 @@
  */
 import M from "mathjs";
 import Q from "quaternion";
-import { mean } from "d3-array";
+import { mean as arrayMean } from "d3-array";
 import { line } from "d3-shape";
 import * as d3 from "d3";
 import "d3-jetpack";
@@ -500,7 +500,7 @@ class PlaneData {
     }
     //# Extract mean of data on each axis ##
     if (this.mean == null) {
-      this.mean = [0, 1, 2].map((i) => mean(this.array, (d) => d[i]));
+      this.mean = [0, 1, 2].map((i) => arrayMean(this.array, (d) => d[i]));
     }
     if (this.centered == null) {
       this.centered = this.array.map((d) => M.subtract(d, this.mean));
-- 
2.43.0


From c41fc2baae78a909aa6395c4b8f5abae14af3b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:06 +0000
Subject: [PATCH 25/39] fix: explained variance is the share of variance of the
 in-plane axes

It was computed from the covariance matrix of the errors (proportional to
the cube of the singular values) instead of the variance along the axes.
---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 50aa475..b373252 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -341,7 +341,7 @@ class PCAOrientation(BaseOrientation):
         represent the planar fit). Analogous to R^2 of
         linear least squares.
         """
-        v = N.diagonal(self.covariance_matrix)
+        v = self.eigenvalues
         return v[0:2].sum()/v.sum()
 
     @property
-- 
2.43.0


From 1aa823fc0bcfba31ee38ff347c4e0e83e9f874bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:33 +0000
Subject: [PATCH 26/39] fix: interpolating an integer raster rounded elevations
 to whole numbers

---
 attitude/helpers/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/helpers/interpolation.py b/attitude/helpers/interpolation.py
index c24978b..5178945 100644
--- a/attitude/helpers/interpolation.py
+++ b/attitude/helpers/interpolation.py
@@ -26,7 +26,7 @@ def __factory__(order):
         def line_handler(coords):
             coordinates = N.array(coords)
             aligned = (coordinates - 0.5)[:,0:2].T[::-1]  # align fractional pixel coordinates to array
-            z = map_coordinates(array, aligned, mode="nearest", order=order)
+            z = map_coordinates(array, aligned, output=float, mode="nearest", order=order)
             try:
                 coordinates[:,2] = z
             except IndexError:
-- 
2.43.0


From 6a807aa77b9416103f8eb1e79f63cd02de3062a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:51 +0000
Subject: [PATCH 27/39] fix: drawing a plane in the viewer flipped the caller's
 axes

---
 frontend/packages/attitude/src/functions.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/functions.ts b/frontend/packages/attitude/src/functions.ts
index 78a2d06..b07d2c7 100644
--- a/frontend/packages/attitude/src/functions.ts
+++ b/frontend/packages/attitude/src/functions.ts
@@ -55,7 +55,8 @@ const createNominalPlane = function (d, baseData = null) {
 
 const flipAxesIfNeeded = function (axes) {
   if (axes[2][2] < 0) {
-    axes[2] = axes[2].map((e) => -e);
+    // The caller's axes are left as they are
+    return [axes[0], axes[1], axes[2].map((e) => -e)];
   }
   return axes;
 };
-- 
2.43.0


From 7522f0a06f2ef7a4eff5b4648fe7358a365d22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:44 +0000
Subject: [PATCH 28/39] fix: drawing on the stereonet wrote its defaults into
 the caller's options

---
 frontend/packages/attitude/src/stereonet/index.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index 775272e..eb0d68c 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -85,9 +85,8 @@ function Stereonet(o1 = {}) {
   const callStack = [];
 
   const drawPlanes = function (data, o) {
-    if (o == null) {
-      o = {};
-    }
+    // The caller's options are left as they are
+    o = { ...o };
     if (o.color == null) {
       o.color = "#aaaaaa";
     }
@@ -128,6 +127,7 @@ function Stereonet(o1 = {}) {
   };
 
   const drawEllipses = function (data, o = {}) {
+    o = { ...o };
     o.color ??= (d) => d.color || "#aaaaaa";
     if (el == null) {
       throw "Stereonet must be initialized to an element before adding data";
-- 
2.43.0


From 4a65a2aa8b04c0af15c009ed14231f744779f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:20 +0000
Subject: [PATCH 29/39] fix: with several stereonets on a page only the last
 could be dragged

---
 frontend/packages/attitude/src/stereonet/interaction.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/interaction.ts b/frontend/packages/attitude/src/stereonet/interaction.ts
index 872c2f3..dcb5a33 100644
--- a/frontend/packages/attitude/src/stereonet/interaction.ts
+++ b/frontend/packages/attitude/src/stereonet/interaction.ts
@@ -47,7 +47,9 @@ export default (function(stereonet){
   };
 
   el.on('mousedown', mousedown);
+  // Named listeners, so that several stereonets can share a page
+  const name = stereonet.uid();
   return select(window)
-    .on("mousemove", mousemove)
-    .on("mouseup", mouseup);
+    .on(`mousemove.${name}`, mousemove)
+    .on(`mouseup.${name}`, mouseup);
 });
-- 
2.43.0


From c04925a1df2dc748ac580e8522af1d066a3bf427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:39 +0000
Subject: [PATCH 30/39] fix: the notebook interface used this before calling
 its parent constructor

---
 frontend/packages/notebook-ui/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index df3c4ad..b9e1b5e 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -45,10 +45,10 @@ class AttitudeUI extends React.Component {
     };
   }
   constructor(props) {
+    super(props);
     this.getData = this.getData.bind(this);
     this.onStereonetRotate = this.onStereonetRotate.bind(this);
     this.onHover = this.onHover.bind(this);
-    super(props);
     this.state = {
       showGroups: true,
       azimuth: 0,
-- 
2.43.0


From d8e2844d69d7c4842f32b50767f3895ce924cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:39 +0000
Subject: [PATCH 31/39] fix: the stereonet zoomed to a selection did not follow
 changes of the selection

---
 frontend/packages/notebook-ui/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/index.ts b/frontend/packages/notebook-ui/src/index.ts
index b9e1b5e..580b47c 100644
--- a/frontend/packages/notebook-ui/src/index.ts
+++ b/frontend/packages/notebook-ui/src/index.ts
@@ -164,7 +164,7 @@ class AttitudeUI extends React.Component {
   }
 
   updateSelection(ids) {
-    const collectedIDs = this.state.selection;
+    const collectedIDs = [...this.state.selection];
     for (let id of Array.from(ids)) {
       if (id.members != null && !this.props.allowGroupSelection) {
         continue;
-- 
2.43.0


From f2a2f5ae29399b934417911596d16cb11754295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:39 +0000
Subject: [PATCH 32/39] fix: traces and highlights in the notebook interface
 vanished when redrawn

---
 frontend/packages/notebook-ui/src/components/stereonet.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/stereonet.ts b/frontend/packages/notebook-ui/src/components/stereonet.ts
index e80a7a7..97c3184 100644
--- a/frontend/packages/notebook-ui/src/components/stereonet.ts
+++ b/frontend/packages/notebook-ui/src/components/stereonet.ts
@@ -20,12 +20,13 @@ import { Switch, Button, Card } from "@blueprintjs/core";
 
 const setHoveredFill = function (d) {
   const s = d3.select(this);
-  const err = s.select("path.error");
+  // selectAll: select would replace the path's own geometry with the group's datum
+  const err = s.selectAll("path.error");
   err.style("fill", d.color);
   err.style("stroke", d.color);
   err.style("opacity", 1);
 
-  s.select("path.nominal").style("stroke", d.color);
+  s.selectAll("path.nominal").style("stroke", d.color);
   if (d.member_of != null) {
     return;
   }
@@ -141,7 +142,7 @@ class StereonetComponent extends React.Component {
           d3.select(this).select("path.error").remove();
         }
 
-        return d3.select(this).select("path.nominal").attr("stroke", d.color);
+        return d3.select(this).selectAll("path.nominal").attr("stroke", d.color);
       });
   }
 
-- 
2.43.0


From 1d0eb12707df7f91f113fab848722533fdbff40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:56 +0000
Subject: [PATCH 33/39] fix: a clipped net fills its frame up to the margin,
 whatever the clip angle

---
 frontend/packages/attitude/src/stereonet/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frontend/packages/attitude/src/stereonet/index.ts b/frontend/packages/attitude/src/stereonet/index.ts
index eb0d68c..fbf1b61 100644
--- a/frontend/packages/attitude/src/stereonet/index.ts
+++ b/frontend/packages/attitude/src/stereonet/index.ts
@@ -179,7 +179,8 @@ function Stereonet(o1 = {}) {
     }
 
     if (clipAngle < 89) {
-      const _pscale = radius / Math.sin((Math.PI / 180) * clipAngle);
+      // Equal-area radius of the clip circle: the net fills its frame up to the margin
+      const _pscale = radius / (2 * Math.sin((Math.PI / 360) * clipAngle));
       if (shouldClip) {
         proj.clipAngle(clipAngle);
       }
-- 
2.43.0


From 7df399ad4a1938ee78784ca64b3700b4585f733b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:39 +0000
Subject: [PATCH 34/39] fix: labelling a vertical net moved the start offset in
 the caller's options

---
 frontend/packages/attitude/src/stereonet/vertical.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/frontend/packages/attitude/src/stereonet/vertical.ts b/frontend/packages/attitude/src/stereonet/vertical.ts
index b14fe52..3fbb475 100644
--- a/frontend/packages/attitude/src/stereonet/vertical.ts
+++ b/frontend/packages/attitude/src/stereonet/vertical.ts
@@ -9,9 +9,8 @@ import { scaleLinear } from "d3-scale";
 const d2r = Math.PI / 180;
 export default (stereonet) =>
   function (opts) {
-    if (opts == null) {
-      opts = {};
-    }
+    // The caller's options are left as they are
+    opts = { ...opts };
     if (opts.startOffset == null) {
       opts.startOffset = 10;
     }
-- 
2.43.0


From c7d58563b73fbbdc92381cc3af67f058af9cc0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:53 +0000
Subject: [PATCH 35/39] fix: the rectangular stereonet kept what it had drawn
 for earlier data

---
 frontend/packages/plots/src/rectangular.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/frontend/packages/plots/src/rectangular.ts b/frontend/packages/plots/src/rectangular.ts
index 03e1f49..9f1e688 100644
--- a/frontend/packages/plots/src/rectangular.ts
+++ b/frontend/packages/plots/src/rectangular.ts
@@ -14,6 +14,7 @@ import { AzimuthLabels, DipLabels } from "./graticule-labels";
 const scale = scaleLinear().domain([2, 10]).range([0.8, 0.2]).clamp(true);
 
 function drawStereonet(el_, data) {
+  el_.innerHTML = "";
 
   const margin = 25;
   const size = { height: 390, width: 800 };
-- 
2.43.0


From 54d15d0c849a36b3d22abce3df882b18f3bbb8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:17 +0000
Subject: [PATCH 36/39] fix: dip azimuth labels called north 360 degrees

---
 frontend/packages/plots/src/graticule-labels.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/plots/src/graticule-labels.ts b/frontend/packages/plots/src/graticule-labels.ts
index 912ecac..8ab93b2 100644
--- a/frontend/packages/plots/src/graticule-labels.ts
+++ b/frontend/packages/plots/src/graticule-labels.ts
@@ -6,7 +6,7 @@ import PathHandler from "kld-intersections/lib/PathHandler";
 const index = { lon: 0, lat: 1 };
 
 const formatAzimuthLabel = function (d) {
-  const v = 180 - d.value;
+  const v = (180 - d.value) % 360;
   if (v === 180) {
     return "S";
   }
-- 
2.43.0


From 3b5bc1780d4785b4bf51c88cecff1b1aa177d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:17 +0000
Subject: [PATCH 37/39] fix: conjugate conics with the inverse hyperbola failed
 on an undefined name

---
 attitude/display/parametric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/parametric.py b/attitude/display/parametric.py
index 52a83ca..931067e 100644
--- a/attitude/display/parametric.py
+++ b/attitude/display/parametric.py
@@ -79,7 +79,7 @@ def plot_conjugate_conics(ax, axes, width=None, plot_foci=False, plot_inverse_hy
     if plot_inverse_hyperbola:
         # Plot inverse hyperbola
         hyp_inv, = ax.plot(*hyperbola(1/axes, opens_up=True),
-                            color=color, zorder=-1,
+                            color=hyp.get_color(), zorder=-1,
                            label='Inverse hyperboloid')
 
     ell, = ax.plot(*ellipse(ax1, center=[0,center]), color='red',
-- 
2.43.0


From e3787abea9e0c8010b9dbabfdd2e320626d5f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:35 +0000
Subject: [PATCH 38/39] fix: scale the side view by the horizontal extent of
 the measurements

---
 frontend/packages/notebook-ui/src/components/side-view.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frontend/packages/notebook-ui/src/components/side-view.ts b/frontend/packages/notebook-ui/src/components/side-view.ts
index 16c8211..493e418 100644
--- a/frontend/packages/notebook-ui/src/components/side-view.ts
+++ b/frontend/packages/notebook-ui/src/components/side-view.ts
@@ -61,7 +61,7 @@ class SideViewComponent extends React.Component {
       }
       const hyp = Math.hypot(x, y);
       if (hyp > xsize) {
-        xsize = h;
+        xsize = hyp;
       }
 
       p.inGroup = false;
-- 
2.43.0


From 080858b9d9aad950b3fd2abf98eab8f32e75a240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:35 +0000
Subject: [PATCH 39/39] fix: mark the grouped measurements of the side view
 after every redraw

---
 frontend/packages/notebook-ui/src/components/side-view.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frontend/packages/notebook-ui/src/components/side-view.ts b/frontend/packages/notebook-ui/src/components/side-view.ts
index 493e418..635b2dc 100644
--- a/frontend/packages/notebook-ui/src/components/side-view.ts
+++ b/frontend/packages/notebook-ui/src/components/side-view.ts
@@ -198,13 +198,11 @@ class SideViewComponent extends React.Component {
       .selectAll("g.error-hyperbola")
       .data(this.singlePlanes);
 
-    let esel = sel
-      .enter()
-      .append("g.error-hyperbola")
-      .classed("in-group", (d) => d.group != null);
+    let esel = sel.enter().append("g.error-hyperbola");
 
     esel
       .merge(sel)
+      .classed("in-group", (d) => d.group != null)
       .each(hyp)
       .sort((a, b) => a.__z - b.__z);
 
-- 
2.43.0

