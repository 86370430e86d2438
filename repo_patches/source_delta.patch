From a0d2d716d24bfd8ae8838a0f6610ca4306ca5fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:31 +0000
Subject: [PATCH 01/21] fix: gravity gradient at stations in line with an edge

The edge line integral lost all its digits (or returned nan) when the station
was in line with the edge and rounding hid it from the exact '== 1' test.
---
 geec/polyhedron.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3c2dc67..bc4bf7b 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -204,15 +204,16 @@ class Edge:
             R1, R2 = (self.points[0] - obs, self.points[1] - obs)
             r1, r2 = (np.linalg.norm(R1), np.linalg.norm(R2))
 
-            chsgn = 1  # if origin,p1 & p2 are on a st line
-            if r1 > r2 and np.dot(R1, R2) / (r1 * r2) == 1:  # p1 farther than p2
-                R1 = R2  # interchange p1,p2
-                r1 = r2
-                chsgn = -1
-
             Lj = self.vector
             lj = self.length
 
+            # start from the nearest end point: r1 + b2 (see below) vanishes then only
+            # on the edge itself, and not when origin,p1 & p2 are on a st line
+            chsgn = 1
+            if r1 > r2:  # p1 farther than p2
+                R1, r1, Lj = R2, r2, -Lj  # interchange p1,p2
+                chsgn = -1
+
             # bj = 2 Rj.Lj
             bj = 2 * np.dot(R1, Lj)
             b2 = bj / lj / 2
@@ -230,7 +231,7 @@ class Edge:
 
             # change sign of I if p1,p2 were interchanged
             self._pqr = pqr * chsgn
-            self._dpqr = dpqr
+            self._dpqr = dpqr * chsgn if gradient else None
             # assign twin value
             self._set_twin_pqr()
 
-- 
2.43.0


From 049f3472564509c664e6038155c1338caea4022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:48 +0000
Subject: [PATCH 02/21] fix: solid angle of a face at stations in, or close to,
 the plane of the face

Rounding could give the corners of one face different orientations (the solid
angle was then wrong by 2 pi, and the gradient with it), or push a cosine
outside [-1, 1] (math domain error).
---
 geec/polyhedron.py | 48 +++++++++++-----------------------------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index bc4bf7b..257936c 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -409,9 +409,9 @@ class Face:
 
         self._omega = 0
         self._domega = np.zeros(3)
-        if abs(self._dp1) > epsilon:
-            points = self.points - obs  # [p1,p2,p3]
-            dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
+        points = self.points - obs  # [p1,p2,p3]
+        # rounding error of _dp1 is proportional to the distance to the points
+        if abs(self._dp1) > 8 * epsilon * np.abs(points).max():
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
                 for i in range(self.npoints)
@@ -433,19 +433,18 @@ class Face:
             w = 0
             dw = 0
             for i in range(self.npoints):
-                inout = dots[i]
+                # all corners are in the plane of the face
+                inout = self._dp1
                 (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
-                perp = self._get_perp(i, inout, self.npoints, points, A1)
                 b = self._get_b(A1, A2)
 
-                angle = self._get_angle(i, inout, b, perp)
+                angle = self._get_angle(b)
                 w += angle
                 if gradient:
                     dangle = self._get_dangle(
                         i,
                         inout,
                         b,
-                        perp,
                         A1,
                         A2,
                         self.npoints,
@@ -471,39 +470,17 @@ class Face:
             A1, A2 = A2, A1
         return (A1, A2)
 
-    @staticmethod
-    # @jit(nopython=True)
-    def _get_perp(
-        i: int, inout: float, npoints: int, points: np.ndarray, A1: np.ndarray
-    ) -> float:
-        """ """
-        # Check if face is seen from inside
-        if inout == 0:
-            return 1
-        else:
-            p3 = points[(i + 2) % npoints]  # p3
-            # if inout>0: face seen from inside
-            if inout > 0:
-                p3 = points[i]  # p1
-
-            # sign of perp is negative if points are clockwise
-            return np.dot(p3, A1)
-
     @staticmethod
     # @jit(nopython=True)
     def _get_b(A1: np.ndarray, A2: np.ndarray) -> float:
-        return np.dot(A1, A2)
+        # rounding could push the cosine slightly outside [-1, 1]
+        return max(-1.0, min(1.0, np.dot(A1, A2)))
 
     @staticmethod
     # @jit(nopython=True)
-    def _get_angle(i: int, inout: float, b: float, perp: float) -> float:
-        if inout == 0:
-            angle = 0
-        else:
-            angle = acos(b)
-            if perp < 0:
-                angle = 2 * np.pi - angle
-        return angle
+    def _get_angle(b: float) -> float:
+        # faces are triangles (convex), so that angle is never greater than pi
+        return acos(b)
 
     @staticmethod
     # @jit(nopython=True)
@@ -511,7 +488,6 @@ class Face:
         i: int,
         inout: float,
         b: float,
-        perp: float,
         A1: np.ndarray,
         A2: np.ndarray,
         npoints: int,
@@ -554,8 +530,6 @@ class Face:
 
         if denom != 0:
             dangle = -DB / denom
-            if perp < 0:
-                dangle = -dangle
 
         return dangle
 
-- 
2.43.0


From 9dee5bebd71de777d3ae7661f24ac4e7cdde0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:25 +0000
Subject: [PATCH 03/21] fix: gravity at stations on an edge

The test for a station in line with an edge compared with an absolute
tolerance, so rounding could leave a null or negative r1 + b2, and the
logarithm gave NaN. Use a tolerance relative to the distance.
---
 geec/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 257936c..49d51b5 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -217,7 +217,7 @@ class Edge:
             # bj = 2 Rj.Lj
             bj = 2 * np.dot(R1, Lj)
             b2 = bj / lj / 2
-            if abs(r1 + b2) < epsilon:  # r1 + b2 == 0
+            if r1 + b2 < 8 * epsilon * r1:  # r1 + b2 == 0, up to rounding error
                 # observation point and edge are in line
                 Lj, bj = -Lj, -bj
                 b2 = bj / lj / 2
-- 
2.43.0


From ab40880e776c9331b7717ee2e2bb194b2a228599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:28 +0000
Subject: [PATCH 04/21] fix: gravity after a computation that failed

An exception raised while computing gravity left the intermediate values of
faces and edges behind; the next call silently reused them for another
station. Reset them first.
---
 geec/polyhedron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 49d51b5..d10ce2c 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -965,6 +965,9 @@ class Polyhedron:
         gradient: optionaly compue gradient gravity fields
         """
 
+        # forget intermediate variables left by a former computation that failed
+        self.reset(coord)
+
         # setup G array, and shift back origin
         G = np.zeros(3)
         # self.set_origin(coord)
-- 
2.43.0


From 818f84b77dc3675c30162a61d876fb0e757df337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 05/21] fix: leave the station unchanged when computing gravity
 fails

Gravity of the first polyhedrons was already added to the station when a
later one failed, so that computing again counted them twice.
---
 geec/station.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geec/station.py b/geec/station.py
index 5af9376..bb3a7b2 100644
--- a/geec/station.py
+++ b/geec/station.py
@@ -78,10 +78,16 @@ class Station:
         if not all(isinstance(x, Polyhedron) for x in polyhedrons):
             raise TypeError("polyhedrons should be of type Polyhedron")
 
+        # sum apart, so that the station is left unchanged if one polyhedron fails
+        sumG = np.zeros(3)
+        sumT = np.zeros((3, 3))
         for poly in polyhedrons:
             (G, T) = poly.get_gravity(self.coord, density, Gc, gradient)
-            self.G += G
-            self.T += T
+            sumG += G
+            sumT += T
+
+        self.G += sumG
+        self.T += sumT
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 116941ad3620283e12495ca5ef8c2199c770d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 06/21] fix: accept the documented vertical datum 'egm2008'

The name is looked up in the enumerator's members, where it was only known
as 'egm08', so that the value given in the documentation was rejected.
---
 geec/crs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geec/crs.py b/geec/crs.py
index cefde8e..a3ec2c9 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -34,7 +34,8 @@ class VDatumEnum(StrEnum):
     ELLPS = "ellps"
     EGM84 = "egm84"
     EGM96 = "egm96"
-    EGM08 = "egm2008"
+    EGM2008 = "egm2008"
+    EGM08 = "egm2008"  # alias
 
 
 EllModelEnum = Enum("EllModelEnum", pm.Ellipsoid.models)
-- 
2.43.0


From 7851f55297aa646ac7bad2a8d136a49693ef2ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 07/21] fix: wrap any longitude to -180..180

Longitudes below -180, or above 540, were left out of range.
---
 geec/crs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/crs.py b/geec/crs.py
index a3ec2c9..6eeb29b 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -233,7 +233,9 @@ def get_crs(config: Subview) -> CRS:
 def wrap180(points: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
     """wrap longitude coordinates to -180..180"""
     logger.info("Convert points longitude to -180..180")
-    result = (x - 360 if x > 180 else x for x in points[:, 0])
+    result = (
+        x if -180 <= x <= 180 else (x + 180) % 360 - 180 for x in points[:, 0]
+    )
     points[:, 0] = list(result)
     return points
 
-- 
2.43.0


From f1ee1005216c6cd13cf198c560ae6f9d2a92cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 08/21] fix: do not take ENU coordinates for longitudes and
 latitudes

East, north and up are in metres: wrapping the longitude moved any point
more than 180 m east by 360 m, and the geoid height was looked up at a
meaningless position.
---
 geec/dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index ea20e8c..11b508c 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -41,10 +41,10 @@ class Dataset:
         """Convert longitude to -180°..180°,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ENU or ECEF coordinate system, do nothing.
         """
         CRS_LON180 = {
-            geec.crs.CRSEnum.ENU: geec.crs.wrap180,
+            geec.crs.CRSEnum.ENU: lambda x: x,
             geec.crs.CRSEnum.ELLPS: geec.crs.wrap180,
             geec.crs.CRSEnum.ECEF: lambda x: x,
             geec.crs.CRSEnum.CART: lambda x: x,
@@ -56,10 +56,10 @@ class Dataset:
         """Convert altitude to ellipsoid height,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ENU or ECEF coordinate system, do nothing.
         """
         CRS_ELLPSH = {
-            geec.crs.CRSEnum.ENU: geec.crs.ellipsoid_height,
+            geec.crs.CRSEnum.ENU: lambda x, y: (x, y),
             geec.crs.CRSEnum.ELLPS: geec.crs.ellipsoid_height,
             geec.crs.CRSEnum.ECEF: lambda x, y: (x, y),
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
-- 
2.43.0


From f0d2ed837959f83c0f998f58deac4f305fd6e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 09/21] fix: convert to ENU from another ellipsoid than WGS84

Longitudes and latitudes on another ellipsoid were taken for WGS84 ones.
---
 geec/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/dataset.py b/geec/dataset.py
index 11b508c..4c7f1f7 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -112,6 +112,9 @@ class Dataset:
             geec.crs.CRSEnum.CART: lambda x, y, *args: (x, y),
         }
 
+        if self.crs.name == geec.crs.CRSEnum.ELLPS:
+            self.to_wgs84()
+
         self.coords, self.crs = CRS_TOENU[self.crs.name](
             self.coords, self.crs, lon0, lat0, alt0
         )
-- 
2.43.0


From 4958f8179673593d45ebe11c819469370757d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 10/21] fix: accept whole number coordinates

Coordinates without any decimal were read as integers, and converting
altitudes in place failed.
---
 geec/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 4c7f1f7..2244bd9 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -149,7 +149,7 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
 
 
 def get_dataset(config: Subview) -> Dataset:
-    ds_coords = _read_coords(config)
+    ds_coords = np.asarray(_read_coords(config), dtype=np.float64)
     ds_crs = geec.crs.get_crs(config["crs"])
 
     return Dataset(coords=ds_coords, crs=ds_crs)
-- 
2.43.0


From af9f9ed3ab52432efac2255fa635096007c71a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 11/21] fix: use density and gravity constant of each mass body

Those of the first mass body were used for all of them.
---
 geec/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index df90a73..ce85a4d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -65,9 +65,6 @@ def run(
     # assess Polyhedron of each mass bodies
     p = [Polyhedron(mass.dataset.coords) for mass in masses]
 
-    density = masses[0].density
-    Gc = masses[0].gravity_constant
-
     # observation points
     observer = geec.observer.get_observer(config)
     observer.to_wgs84()
@@ -78,7 +75,10 @@ def run(
 
     def add_gravity(row):
         s = Station(np.array(row))
-        s.compute_gravity(p, density, Gc, gradient=gradient)
+        for poly, mass in zip(p, masses, strict=True):
+            s.compute_gravity(
+                poly, mass.density, mass.gravity_constant, gradient=gradient
+            )
         listG = s.G
         listT = s.T.flatten()[
             [0, 1, 2, 4, 5, 8]
-- 
2.43.0


From f0b26723c07542e5cd2952b42c9d07113c862266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:09 +0000
Subject: [PATCH 12/21] fix: compute gravity in the coordinates system of the
 mass bodies

Mass bodies are converted to ECEF, but longitude, latitude and altitude of
the observation points were used as if they were ECEF coordinates.
---
 geec/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geec/cli.py b/geec/cli.py
index ce85a4d..0f769b5 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -73,6 +73,10 @@ def run(
     obs_name = observer.coords_name
     obs_unit = observer.coords_unit
 
+    # compute gravity in the same coordinates system as mass bodies
+    observer.to_ecef()
+    stations = observer.dataset.coords
+
     def add_gravity(row):
         s = Station(np.array(row))
         for poly, mass in zip(p, masses, strict=True):
@@ -85,7 +89,7 @@ def run(
         ]  # "txx", "txy", "txz", "tyy", "tyz", "tzz"
         return np.concatenate([listG, listT])
 
-    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_points)
+    listGT = np.apply_along_axis(add_gravity, axis=1, arr=stations)
     G_name = ["Gx", "Gy", "Gz"]
     G_unit = ["(mGal)", "(mGal)", "(mGal)"]
     T_name = ["txx", "txy", "txz", "tyy", "tyz", "tzz"]
-- 
2.43.0


From 59be56134f683ed50bf80d3174615ee4e0118881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:47 +0000
Subject: [PATCH 13/21] fix: gravity gradient in the plane of a thin face

The rounding error of the distance to the plane of an elongated face is
larger: a station in its plane was taken for being off it, and the solid
angle was then made of rounding errors.
---
 geec/polyhedron.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index d10ce2c..2ec53eb 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -410,8 +410,11 @@ class Face:
         self._omega = 0
         self._domega = np.zeros(3)
         points = self.points - obs  # [p1,p2,p3]
-        # rounding error of _dp1 is proportional to the distance to the points
-        if abs(self._dp1) > 8 * epsilon * np.abs(points).max():
+        # rounding error of _dp1 is proportional to the distance to the points, and
+        # to the elongation of the face (through its unit outward vector)
+        lengths = [edge.length for edge in self.edges]
+        elongation = max(lengths) / min(lengths)
+        if abs(self._dp1) > 8 * epsilon * elongation * np.abs(points).max():
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
                 for i in range(self.npoints)
-- 
2.43.0


From 4a6641ceddf61b232eba7dac1e59fbfc246d1e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:50 +0000
Subject: [PATCH 14/21] fix: read coordinates from file with all their digits

---
 geec/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 2244bd9..b6a99da 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -127,7 +127,9 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
     elif config["file_path"]:
         file_path = Path(str(config["file_path"].get(str)))
         if file_path.is_file():
-            df = pd.read_csv(file_path, sep=",", header=None)
+            df = pd.read_csv(
+                file_path, sep=",", header=None, float_precision="round_trip"
+            )
             return df.values
         else:
             msg = f"File {file_path} not found"
-- 
2.43.0


From b57131546e23e90dacf4437472a37d0c4400ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:10 +0000
Subject: [PATCH 15/21] fix: keep former results when writing results fails

---
 geec/api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geec/api.py b/geec/api.py
index a71f418..c69c338 100644
--- a/geec/api.py
+++ b/geec/api.py
@@ -42,7 +42,14 @@ def write_file(df: pd.DataFrame, output: str = "") -> None:
         # Save result in csv file
         file_path = Path(output).expanduser().resolve()
         file_path.parent.mkdir(parents=True, exist_ok=True)
-        df.to_csv(file_path.with_suffix(".csv"), index=False)
+        # write aside first, so that a failure leaves former results unchanged
+        partial = file_path.with_suffix(".csv.part")
+        try:
+            df.to_csv(partial, index=False)
+            partial.replace(file_path.with_suffix(".csv"))
+        except BaseException:
+            partial.unlink(missing_ok=True)
+            raise
         logger.success(
             f"\nResults are saved in csv file {file_path.with_suffix('.csv')}"
         )
-- 
2.43.0


From ffba0fc647c12c8c39af3c694748e362b3b662ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:59 +0000
Subject: [PATCH 16/21] fix: keep a former template when writing it fails

---
 geec/cli.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index 0f769b5..898f28f 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -131,8 +131,14 @@ def config(
     pkg_path = Path(str(config._package_path))
     template = pkg_path / "config_template.yaml"
 
-    # copy template file
-    file_path.write_text(template.read_text())
+    # copy template file, aside first, so that a failure leaves a former file unchanged
+    partial = file_path.with_suffix(".yaml.part")
+    try:
+        partial.write_text(template.read_text())
+        partial.replace(file_path)
+    except BaseException:
+        partial.unlink(missing_ok=True)
+        raise
     logger.success(f"Save configuration template in {file_path}")
 
 
-- 
2.43.0


From 71ffe5be4cfa26f72fa7c517ccf0ea7a50ca4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:02 +0000
Subject: [PATCH 17/21] fix: ENU coordinates made from ECEF are labelled with
 their ellipsoid

---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index 6eeb29b..2103435 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -399,6 +399,7 @@ def ecef_to_enu(
 
     # update coordinates reference system
     crs.name = CRSEnum.ENU
+    crs.ellps = _WGS84_
     crs.enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
-- 
2.43.0


From 40150119eae84a3056d402015ef92d901ac1f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:05 +0000
Subject: [PATCH 18/21] fix: refuse a points array which is not of shape (N,3)

---
 geec/polyhedron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 2ec53eb..901c006 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -780,9 +780,10 @@ class Polyhedron:
         """
         logger.trace("initialise Polyhedron")
         # check points list of coordinates
-        # TODO: check np.ndarray shape (N,3)
         if not isinstance(points, np.ndarray):
             raise KeyError("'points' must be a numpy array")
+        elif points.ndim != 2 or points.shape[1] != 3:
+            raise ValueError("'points' must be of shape (N,3)")
         else:
             self.points = points
 
-- 
2.43.0


From 83def1cb01f1633c583a3314cfcab4c83fef6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:08 +0000
Subject: [PATCH 19/21] fix: refuse a coord array which is not of shape (3,)

---
 geec/station.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geec/station.py b/geec/station.py
index bb3a7b2..d4cc8d0 100644
--- a/geec/station.py
+++ b/geec/station.py
@@ -38,6 +38,8 @@ class Station:
         # check points list of coordinates
         if not isinstance(coord, np.ndarray):
             raise KeyError("'coord' must be a numpy array.")
+        if coord.shape != (3,):
+            raise ValueError("'coord' must be of shape (3,)")
 
         self.coord = coord
         self.G = np.zeros(3)
-- 
2.43.0


From 5defcf9423dc6fe418ecc758d441426b0d5e4a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 20/21] fix: gravity at stations close to an edge

The station was taken as being on the edge when r1 + b2 is smaller than rounding
errors, i.e. up to distances of 1e-8 times the length of the edge, and the line
integral set to nil there. Compute r1 + b2 without cancellation instead.
---
 geec/polyhedron.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 901c006..fcdccea 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -152,7 +152,7 @@ class Edge:
     ) -> tuple[np.ndarray, np.ndarray]:
         """Line integral along edge"""
         Ll = Lj / lj
-        if abs(cj) > epsilon:  # cj != 0
+        if cj > 0:  # cj != 0
             # observation point and edge are not in line
             l2 = lj * lj
             r2 = rj * rj
@@ -173,7 +173,7 @@ class Edge:
         if gradient:
             Rr = Rj / rj
 
-            if abs(cj) > epsilon:  # cj != 0
+            if cj > 0:  # cj != 0
                 u = t * cj
                 v = cj
                 DU = -((Lj + Rj) / _sqrt + Ll)
@@ -217,13 +217,19 @@ class Edge:
             # bj = 2 Rj.Lj
             bj = 2 * np.dot(R1, Lj)
             b2 = bj / lj / 2
-            if r1 + b2 < 8 * epsilon * r1:  # r1 + b2 == 0, up to rounding error
+            # cj = R1 + bj/(2*lj)
+            cj = r1 + b2
+            if b2 < 0:
+                # r1 and b2 cancel out close to the edge: use r1**2 - b2**2, which is
+                # the square of the distance to the line
+                distance = np.linalg.norm(cross_product(R1, Lj)) / lj
+                cj = distance * distance / (r1 - b2)
+
+            if cj == 0:  # r1 + b2 == 0
                 # observation point and edge are in line
                 Lj, bj = -Lj, -bj
                 b2 = bj / lj / 2
-
-            # cj = R1 + bj/(2*lj)
-            cj = r1 + b2
+                cj = r1 + b2
 
             (pqr, dpqr) = self._line_integral_along_edge(
                 cj, Lj, lj, R1, r1, b2, bj, gradient
-- 
2.43.0


From 2791bfd907d2031906671af939621965425112a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 21/21] fix: faces of a body given in single precision, far
 from the origin

The point which tells the inside of the hull was averaged in the precision of
the array of points; in single precision it could come out of a small body far
from the origin, and some of its faces were then turned inwards.
---
 geec/polyhedron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index fcdccea..534ae93 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -816,7 +816,8 @@ class Polyhedron:
     def _get_faces(self) -> list[Face]:
         """Warning"""
         hull = ConvexHull(self.points)
-        centroid = np.mean(self.points[hull.vertices, :], axis=0)
+        # (sum in double precision, whatever the precision of points)
+        centroid = np.mean(self.points[hull.vertices, :] + np.zeros(3), axis=0)
         npdot = np.dot
 
         faces = []
-- 
2.43.0

