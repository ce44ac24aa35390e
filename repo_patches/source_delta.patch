From 05433a61a465b3cc3fee798e600ec31d5c71ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:23 +0000
Subject: [PATCH 01/26] fix: angle between (anti)parallel vectors is never NaN

---
 attitude/geom/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index 5ef2bca..df5e04e 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -61,7 +61,8 @@ def angle(v1,v2, cos=False):
     """
     n = (norm(v1)*norm(v2))
     _ = dot(v1,v2)/n
-    return _ if cos else N.arccos(_)
+    # Rounding can push the cosine slightly outside of [-1,1]
+    return _ if cos else N.arccos(N.clip(_,-1,1))
 
 class Plane(N.ndarray):
     def hessian_normal(plane):
-- 
2.43.0


From 86f551c640a32c2cd1491706c0079b54d221582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:23 +0000
Subject: [PATCH 02/26] fix: default slice axes are orthonormal and lie in the
 slicing plane

---
 attitude/geom/conics.py | 1 +
 attitude/geom/util.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 1245220..a28ee24 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -151,6 +151,7 @@ class Conic(N.ndarray):
         if axes is None:
             n = plane.normal()
             v1 = perpendicular_vector(n)
+            v1 = v1/N.linalg.norm(v1)
             if dim == 3:
                 v2 = N.cross(v1,n)
                 axes = (v1,v2)
diff --git a/attitude/geom/util.py b/attitude/geom/util.py
index df5e04e..f65530e 100644
--- a/attitude/geom/util.py
+++ b/attitude/geom/util.py
@@ -96,7 +96,7 @@ def perpendicular_vector(n):
     """
     dim = len(n)
     if dim == 2:
-        return n[::-1]
+        return N.array([-n[1],n[0]])
     # More complex in 3d
     for ix in range(dim):
         _ = N.zeros(dim)
-- 
2.43.0


From 64ae4996ae746a8a87bb98625fcaf3ad9a1045a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:23 +0000
Subject: [PATCH 03/26] fix: major axes of ellipsoids end on the ellipsoid

---
 attitude/geom/conics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index a28ee24..308dbed 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -83,8 +83,9 @@ class Conic(N.ndarray):
         """
         _ = ell[:-1,:-1]
         U,s,V = N.linalg.svd(_)
-        scalar = -(ell.sum()-_.sum())
-        return N.sqrt(s*scalar)*V
+        # Conic is _ = -level, relative to its center
+        level = ell.solve(augment(ell.center()))
+        return N.sqrt(-level/s)[:,N.newaxis]*V
 
     def __type(self):
         return N.linalg.det(self[:-1,:-1])
-- 
2.43.0


From 2827a5f5ce727695edc8241e87a0a89387914b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 04/26] fix: computing or plotting errors does not flip the
 axes of the fit in place

---
 attitude/display/polar.py   | 2 +-
 attitude/orientation/pca.py | 7 ++++---
 attitude/stereonet.py       | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/attitude/display/polar.py b/attitude/display/polar.py
index b83c055..4fad9c4 100644
--- a/attitude/display/polar.py
+++ b/attitude/display/polar.py
@@ -27,7 +27,7 @@ def pole_error(ax, fit, *args, **kwargs):
     ell = ellipse()
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 327df06..04803e2 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -401,8 +401,9 @@ class PCAOrientation(BaseOrientation):
 
     def as_conic(self, level=1):
 
-        if dot(self.axes[2],vector(0,0,1)) < 0:
-            self.axes *= -1
+        axes = self.axes
+        if dot(axes[2],vector(0,0,1)) < 0:
+            axes = -axes
 
         cov = self.covariance_matrix
         idx = N.diag_indices(3)
@@ -416,7 +417,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate ellipse matrix into cartesian
         # plane
-        R = augment(self.axes)
+        R = augment(axes)
         return ell.transform(R)
 
     def as_hyperbola(self, rotated=False):
diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index d73210b..5ce06e3 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -49,7 +49,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
     ell = ellipse(**kwargs)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
@@ -129,7 +129,7 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     if axes[2,2] < 0:
-        axes *= -1
+        axes = -axes
 
     # Not sure where this factor comes from but it
     # seems to make things work better
-- 
2.43.0


From b1e518844e75abbb2ac7ffd0b7f0cc52be2cdad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 05/26] fix: rotations.transform returns the rotation that maps
 v1 onto v2

---
 attitude/coordinates/rotations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/attitude/coordinates/rotations.py b/attitude/coordinates/rotations.py
index 10d30e5..c098941 100644
--- a/attitude/coordinates/rotations.py
+++ b/attitude/coordinates/rotations.py
@@ -6,7 +6,7 @@ Prior art: http://bl.ocks.org/ivyywang/7c94cb5a3accd9913263
 from __future__ import division
 import numpy as N
 from mplstereonet import stereonet_math, stereonet2xyz, xyz2stereonet
-from ..geom.util import angle, vector, dot
+from ..geom.util import angle, vector, dot, perpendicular_vector
 
 def transform(v1, v2):
     """
@@ -17,13 +17,17 @@ def transform(v1, v2):
     """
     theta = angle(v1,v2)
     x = N.cross(v1,v2)
+    if N.linalg.norm(x) == 0:
+        # Vectors are (anti)parallel: rotate around any perpendicular axis
+        x = perpendicular_vector(v1)
     x = x / N.linalg.norm(x)
 
     A = N.array([
         [0, -x[2], x[1]],
         [x[2], 0, -x[0]],
         [-x[1], x[0], 0]])
-    R = N.exp(A*theta)
+    # Matrix exponential of A*theta (Rodrigues' formula)
+    R = N.identity(3) + N.sin(theta)*A + (1-N.cos(theta))*dot(A,A)
 
     return R
 
-- 
2.43.0


From 959f0e0a27cb702a865364edc1e8f1a7bb1581e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 06/26] fix: spherical to cartesian conversion does not swap x
 and y

---
 attitude/coordinates/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/attitude/coordinates/__init__.py b/attitude/coordinates/__init__.py
index a407156..9ed2531 100644
--- a/attitude/coordinates/__init__.py
+++ b/attitude/coordinates/__init__.py
@@ -12,8 +12,8 @@ def cartesian(spherical):
     r,theta,phi = spherical
     z = r*N.cos(theta)
     zc = r*N.sin(theta)
-    x = zc*N.sin(phi)
-    y = zc*N.cos(phi)
+    x = zc*N.cos(phi)
+    y = zc*N.sin(phi)
     return x,y,z
 
 def centered(coordinates):
-- 
2.43.0


From 9fa83abd33a19b8ae256d3a867b6c2fc6e8394a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 07/26] fix: regression centers 3 x n coordinates on their
 centroid

---
 attitude/orientation/linear/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/orientation/linear/regression.py b/attitude/orientation/linear/regression.py
index 78c3740..4e4a726 100644
--- a/attitude/orientation/linear/regression.py
+++ b/attitude/orientation/linear/regression.py
@@ -22,9 +22,10 @@ class Regression(object):
         Solves plane equation Z = a(C[0])+b(C[1])+c by solving linear equation Cm=Z where m=[a,b,c]
         C and Z are the dependent and independent variables, respectively.
         """
-        coordinates = centered(N.array(coordinates))
+        coordinates = N.array(coordinates)
         if len(coordinates[0]) > 3:
             coordinates = N.swapaxes(coordinates, 0, 1)
+        coordinates = centered(coordinates)
 
         self.C = add_ones(coordinates[:,0:2])
         self.Z = coordinates[:,-1]
-- 
2.43.0


From 500684a9034178458bc52282c37aad3dce253fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 08/26] fix: explained variance is computed from the variance
 of the data

---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 04803e2..adf164a 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -333,7 +333,7 @@ class PCAOrientation(BaseOrientation):
         represent the planar fit). Analogous to R^2 of
         linear least squares.
         """
-        v = N.diagonal(self.covariance_matrix)
+        v = self.eigenvalues
         return v[0:2].sum()/v.sum()
 
     @property
-- 
2.43.0


From 9fc2110cf75194b6cb90fb72598ef8d0a7eb3527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 09/26] fix: error ellipse of a PCA fit can be computed

---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index adf164a..4fad53d 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -446,7 +446,7 @@ class PCAOrientation(BaseOrientation):
 
         # Rotate major axes into 3d space
         axs_ = N.append(ax,N.zeros((2,1)),axis=1)
-        axs = dot(axs_,matrix[:3])
+        axs = dot(axs_,matrix[:,:3])
         u = N.linspace(0,2*N.pi,1000)
 
         # Get a bundle of vectors defining cone
-- 
2.43.0


From 60d041df9898cabfa4e379b5e04781bb3382a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 10/26] fix: dip direction and rake of horizontal planes are
 defined

---
 attitude/orientation/pca.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 4fad53d..253b105 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -225,6 +225,9 @@ class PCAOrientation(BaseOrientation):
         v[-1] = 1
         self._vertical = v
         self.strike = N.cross(self.normal,self._vertical)
+        if len(self.normal) == 3 and not self.strike.any():
+            # The strike of a horizontal plane is arbitrary
+            self.strike = vector(1,0,0)
         try:
             self.dip_dr = normalize(N.cross(self.strike,self.normal))
         except ValueError:
-- 
2.43.0


From c0a39b242b9bde828d4f417ce9f19e077dba6a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 11/26] fix: interactive plot passes any text in the
 measurements through to the browser

---
 attitude/display/nbextension.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/attitude/display/nbextension.py b/attitude/display/nbextension.py
index 45a40da..e11cc83 100644
--- a/attitude/display/nbextension.py
+++ b/attitude/display/nbextension.py
@@ -32,7 +32,7 @@ def init_notebook_mode():
 __TEMPLATE__ = """
 <div id='a__<<<hash>>>'></div>
 <script type='text/javascript'>
-  var data=JSON.parse('<<<data>>>');
+  var data=JSON.parse(<<<data>>>);
   attitudeUI(document.querySelector('#a__<<<hash>>>'),data);
 </script>
 """
@@ -44,9 +44,11 @@ def plot_interactive(attitudes):
                  if hasattr(a,'to_mapping') else a
                  for a in attitudes]
 
-    data = dumps(attitudes)
-    script = __TEMPLATE__.replace("<<<data>>>",data)
+    # Encode twice to get a javascript string literal, and
+    # make sure that it cannot close the script tag
+    data = dumps(dumps(attitudes)).replace("<","\\u003c")
 
     classname = "A"+str(uuid4())
-    script = script.replace("<<<hash>>>",classname)
+    script = __TEMPLATE__.replace("<<<hash>>>",classname)
+    script = script.replace("<<<data>>>",data)
     display(HTML(script))
-- 
2.43.0


From 3526bf2d891488533760cbf6f06bf770c90fedf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 12/26] fix: a rejected group leaves its would-be members
 unlinked

---
 attitude/orientation/grouped.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index e228ac2..318c9ed 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -19,6 +19,7 @@ class GroupedOrientation(PCAOrientation):
         for o in orientations:
             if hasattr(o,'members'):
                 raise GroupedPlaneError("Cannot group already-grouped planes")
+        for o in orientations:
             o.member_of = self
 
         self.members = orientations
-- 
2.43.0


From 5bf478b919df691bb0d7d9bc2df13abd620d29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 13/26] fix: a measurement belongs to at most one group and
 groups link to the returned copies

---
 attitude/orientation/grouped.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index 318c9ed..693d948 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -37,28 +37,33 @@ def create_groups(orientations, *groups, **kwargs):
     """
     Create groups of an orientation measurement dataset
     """
-    grouped = []
+    grouped = set()
     # Copy all datasets to be safe (this could be bad for
     # memory usage, so can be disabled).
     if kwargs.pop('copy', True):
-        orientations = [copy(o) for o in orientations]
+        copies = {id(o): copy(o) for o in orientations}
+        orientations = [copies[id(o)] for o in orientations]
+        # Groups should refer to the copies of their members
+        for o in orientations:
+            if hasattr(o,'members'):
+                o.members = tuple(copies.get(id(a)) or copy(a)
+                                  for a in o.members)
 
     for o in orientations:
         # Get rid of and recreate group membership
         o.member_of = None
-        try:
-            grouped += o.members
-            for a in o.members:
-                a.member_of = o
-        except AttributeError:
-            pass
+    for o in orientations:
+        for a in getattr(o,'members',()):
+            grouped.add(a.hash)
+            a.member_of = o
 
     def find(uid):
         try:
             val = next(x for x in orientations if x.hash == uid)
-            if val in grouped:
+            if uid in grouped:
                 raise GroupedPlaneError("{} is already in a group."
                                            .format(val.hash))
+            grouped.add(uid)
             return val
         except StopIteration:
             raise KeyError("No measurement of with hash {} found"
-- 
2.43.0


From 95d2be769be633c516911e544b900467a55b4f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:35 +0000
Subject: [PATCH 14/26] fix: rotation between vectors that are opposite up to
 rounding

---
 attitude/coordinates/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/coordinates/rotations.py b/attitude/coordinates/rotations.py
index c098941..06f3fae 100644
--- a/attitude/coordinates/rotations.py
+++ b/attitude/coordinates/rotations.py
@@ -17,7 +17,7 @@ def transform(v1, v2):
     """
     theta = angle(v1,v2)
     x = N.cross(v1,v2)
-    if N.linalg.norm(x) == 0:
+    if N.linalg.norm(x) <= 1e-8*N.linalg.norm(v1)*N.linalg.norm(v2):
         # Vectors are (anti)parallel: rotate around any perpendicular axis
         x = perpendicular_vector(v1)
     x = x / N.linalg.norm(x)
-- 
2.43.0


From 30d10225b4006ea17f625c8bee33c829d9cbbf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:41 +0000
Subject: [PATCH 15/26] fix: DEM helpers can be imported with Shapely 2

---
 attitude/helpers/dem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/helpers/dem.py b/attitude/helpers/dem.py
index 881198d..cfe1146 100644
--- a/attitude/helpers/dem.py
+++ b/attitude/helpers/dem.py
@@ -7,7 +7,7 @@ from rasterio.features import rasterize, geometry_mask
 from affine import Affine
 from subdivide import subdivide
 
-from shapely.geometry import shape, mapping, asShape
+from shapely.geometry import shape, mapping
 from shapely.ops import transform
 
 from .interpolation import bilinear
-- 
2.43.0


From a06ab2b3b238de7dc8ac2f713e9c9de680992eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:58 +0000
Subject: [PATCH 16/26] fix: angle between fits can be asked for in radians

---
 attitude/geom/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/geom/__init__.py b/attitude/geom/__init__.py
index c05651c..bfb0244 100644
--- a/attitude/geom/__init__.py
+++ b/attitude/geom/__init__.py
@@ -18,7 +18,8 @@ def fit_angle(fit1, fit2, degrees=True):
     """
     Finds the angle between the nominal vectors
     """
-    return N.degrees(angle(fit1.normal,fit2.normal))
+    val = angle(fit1.normal,fit2.normal)
+    return N.degrees(val) if degrees else val
 
 def fit_similarity(fit1, fit2):
     """
-- 
2.43.0


From e50c7db3ba7174c9262682b85167a074115108ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:58 +0000
Subject: [PATCH 17/26] fix: pole errors and iterative errors honour the level
 asked for

---
 attitude/stereonet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 5ce06e3..741b569 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -58,7 +58,7 @@ def normal_errors(axes, covariance_matrix, **kwargs):
     f = N.linalg.norm(
         ell*axis_lengths,axis=1)
 
-    e0 = -ell.T*d[2]*c1
+    e0 = -ell.T*d[2]*c1*level
     e = N.vstack((e0,f))
 
     _ = dot(e.T,axes).T
@@ -140,8 +140,8 @@ def iterative_normal_errors(axes, covariance_matrix, **kwargs):
 
     def step_func(a):
         e = [
-            -c1*d[2]*N.cos(a),
-            -c1*d[2]*N.sin(a),
+            -c1*level*d[2]*N.cos(a),
+            -c1*level*d[2]*N.sin(a),
             N.linalg.norm([N.cos(a)*d[0],N.sin(a)*d[1]])
         ]
         r = [sdot(e,i)
@@ -173,7 +173,7 @@ def iterative_plane_errors(axes,covariance_matrix, **kwargs):
     u = N.linspace(0, 2*N.pi, n)
 
     scales = dict(upper=1,lower=-1,nominal=0)
-    c1 = scales[sheet]*2 # We double the scale of errors since they are symmetrical
+    c1 = scales[sheet]*level*2 # We double the scale of errors since they are symmetrical
     c1 *= -1 # We assume upper hemisphere
     if axes[2,2] < 0:
         c1 *= -1
-- 
2.43.0


From ee15081c5f0dfe56977510bdab0baf652c46cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:13 +0000
Subject: [PATCH 18/26] fix: angle subtended by ellipsoids off their axes or
 seen from a viewpoint

The half angles of the tangent cone were taken from the semiaxes of the
contour and the distance of its plane to the origin, which is right only
for ellipsoids centered on one of their own axes, seen from the origin.
---
 attitude/geom/conics.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 308dbed..2d3926d 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -16,14 +16,20 @@ def angle_subtended(ell, **kwargs):
         viewpoint   Defaults to origin
     """
     return_tangent = kwargs.pop('tangent',False)
-
-    con, transform, offset = ell.projection(**kwargs)
-    v = N.linalg.norm(N.array(con.major_axes()),axis=1)
-    A = N.sort(v)[::-1] # Sort highest values first
+    viewpoint = kwargs.pop('viewpoint',None)
+
+    if viewpoint is not None:
+        ell = ell.translate(-N.asarray(viewpoint))
+    Q = N.array(ell)
+    # Cone of lines through the origin that are tangent to the conic
+    b = Q[:-1,-1]
+    cone = Q[-1,-1]*Q[:-1,:-1] - N.outer(b,b)
+    # The negative eigenvalue belongs to the axis of the cone
+    w = N.linalg.eigvalsh(cone)
+    A = N.sqrt(-w[0]/w[1:]) # Highest values first
     A = N.squeeze(A)
-    B = N.linalg.norm(offset)
-    if return_tangent: return A/B
-    return N.arctan2(A,B)
+    if return_tangent: return A
+    return N.arctan(A)
 
 class Conic(N.ndarray):
     @classmethod
-- 
2.43.0


From b59bf703123a05e1553c5b9934d8867eccc41de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:13 +0000
Subject: [PATCH 19/26] fix: major axes of ellipsoids with the equation negated
 were NaN

---
 attitude/geom/conics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/attitude/geom/conics.py b/attitude/geom/conics.py
index 2d3926d..72ecda1 100644
--- a/attitude/geom/conics.py
+++ b/attitude/geom/conics.py
@@ -91,6 +91,8 @@ class Conic(N.ndarray):
         U,s,V = N.linalg.svd(_)
         # Conic is _ = -level, relative to its center
         level = ell.solve(augment(ell.center()))
+        # The equation may be written with either sign
+        level = level*N.sign(N.trace(_))
         return N.sqrt(-level/s)[:,N.newaxis]*V
 
     def __type(self):
-- 
2.43.0


From d89a54ef8a7cec8210c639324e98df5afdabbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:13 +0000
Subject: [PATCH 20/26] fix: rejected in-place grouping left earlier groups of
 the request linked

---
 attitude/orientation/grouped.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/attitude/orientation/grouped.py b/attitude/orientation/grouped.py
index 693d948..85a40c8 100644
--- a/attitude/orientation/grouped.py
+++ b/attitude/orientation/grouped.py
@@ -63,14 +63,18 @@ def create_groups(orientations, *groups, **kwargs):
             if uid in grouped:
                 raise GroupedPlaneError("{} is already in a group."
                                            .format(val.hash))
+            if hasattr(val,'members'):
+                raise GroupedPlaneError("Cannot group already-grouped planes")
             grouped.add(uid)
             return val
         except StopIteration:
             raise KeyError("No measurement of with hash {} found"
                            .format(uid))
 
-    for uid_list in groups:
-        vals = [find(uid) for uid in uid_list]
+    # Find all members before creating any group, so that
+    # a rejected request leaves no links
+    members = [[find(uid) for uid in uid_list] for uid_list in groups]
+    for vals in members:
         o = GroupedOrientation(*vals, **kwargs)
         orientations.append(o)
 
-- 
2.43.0


From ce9a36b1e56e0d54283d936492b4c997b3d09fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:11 +0000
Subject: [PATCH 21/26] fix: strikes that are north up to rounding were
 reported as 360

---
 attitude/orientation/pca.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index 253b105..c93f8d2 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -384,6 +384,9 @@ class PCAOrientation(BaseOrientation):
         # Proper azimuth notation
         if strike < 0:
             strike += 360
+            if strike >= 360:
+                # Rounding of a strike just west of north
+                strike = 0.0
 
         return strike, dip
 
-- 
2.43.0


From 4a4511f596b9b85c9c2a7b70458a4dd6818dd2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:16 +0000
Subject: [PATCH 22/26] fix: the error ellipsoid of a fit grows with its level

as_conic(level) divided the axes by the level, so that the error ellipse
at two standard deviations was drawn inside that at one.
---
 attitude/orientation/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/orientation/pca.py b/attitude/orientation/pca.py
index c93f8d2..0ae9c3e 100644
--- a/attitude/orientation/pca.py
+++ b/attitude/orientation/pca.py
@@ -414,7 +414,7 @@ class PCAOrientation(BaseOrientation):
         cov = self.covariance_matrix
         idx = N.diag_indices(3)
         ell = N.identity(4)
-        ell[idx] = 1/cov[idx]*level**2 #cov*level**2#
+        ell[idx] = 1/(cov[idx]*level**2)
         ell[3,3] = -1
         ell = conic(ell)
 
-- 
2.43.0


From 852b45dcff10f22761ba3453091915400de2ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:16 +0000
Subject: [PATCH 23/26] fix: trend_plunge draws its ellipse on Python 3

matplotlib takes a list of positions, not an iterator.
---
 attitude/display/plot/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/display/plot/__init__.py b/attitude/display/plot/__init__.py
index 62f1734..cb8c6ef 100644
--- a/attitude/display/plot/__init__.py
+++ b/attitude/display/plot/__init__.py
@@ -33,7 +33,7 @@ def trend_plunge(orientation, *args, **kwargs):
             orientation.error_ellipse(vector=True, level=level)]
         lat,lon = line(el[1], el[0])
 
-        e = Polygon(zip(lat,lon), alpha=a[i], **kwargs)
+        e = Polygon(list(zip(lat,lon)), alpha=a[i], **kwargs)
         ax.add_patch(e)
 
 def normal(orientation, *args, **kwargs):
-- 
2.43.0


From ed709e14a8a18da74af978fb9e86d37cde8335f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:44 +0000
Subject: [PATCH 24/26] fix: sheets of vertical planes were exchanged by the
 vectorized girdle

---
 attitude/stereonet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/attitude/stereonet.py b/attitude/stereonet.py
index 741b569..d5941bd 100644
--- a/attitude/stereonet.py
+++ b/attitude/stereonet.py
@@ -100,7 +100,7 @@ def plane_errors(axes, covariance_matrix, sheet='upper',**kwargs):
     #if traditional_layout:
     #if axes[2,2] > 0:
 
-    if axes[2,2] > 0:
+    if axes[2,2] >= 0:
         res *= -1
 
     if sheet == 'upper':
-- 
2.43.0


From 1a50f7d63949f305739ac835b5c6b8ba233814ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:48 +0000
Subject: [PATCH 25/26] fix: error bands along a vertical axis were drawn
 horizontally

---
 attitude/display/hyperbola.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/attitude/display/hyperbola.py b/attitude/display/hyperbola.py
index 4e4feb9..b35e2fc 100644
--- a/attitude/display/hyperbola.py
+++ b/attitude/display/hyperbola.py
@@ -13,7 +13,8 @@ def apparent_dip_correction(axes):
     """
     a1 = axes[0].copy()
     a1[-1] = 0
-    cosa = angle(axes[0],a1,cos=True)
+    # Cosine of the plunge (zero for vertical axes)
+    cosa = N.linalg.norm(a1)/N.linalg.norm(axes[0])
     _ = 1-cosa**2
     if _ > 1e-12:
         sina = N.sqrt(_)
-- 
2.43.0


From db8cacdffbf13efb6911bb9f9feaacac43df144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:34 +0000
Subject: [PATCH 26/26] fix: bands of two-dimensional errors need no view axes

---
 attitude/display/hyperbola.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/attitude/display/hyperbola.py b/attitude/display/hyperbola.py
index b35e2fc..eff397b 100644
--- a/attitude/display/hyperbola.py
+++ b/attitude/display/hyperbola.py
@@ -76,6 +76,8 @@ def hyperbolic_errors(hyp_axes, xvals,
         h1 = hyp.slice(p, axes=axes)[0]
     else:
         # We have a 2d geometry
+        if axes is None:
+            axes = N.identity(2)
         h1 = hyp
 
     # Major axes of the conic sliced in the requested viewing
-- 
2.43.0

