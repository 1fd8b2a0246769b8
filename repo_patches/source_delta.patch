From a53cb5644b1ea578ceec553dc21bc9c986129038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 01/14] fix: give every tract its own tract builder

setupPatches stores the patch grid on the builder, which all tracts of a
sky map shared: patch queries used the grid of the most recently built tract.
---
 python/lsst/skymap/tractInfo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index ddde703..3ddeaad 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -22,6 +22,8 @@
 
 __all__ = ["TractInfo"]
 
+import copy
+
 import numpy as np
 from deprecated.sphinx import deprecated
 
@@ -89,7 +91,9 @@ class TractInfo:
         self._ctrCoord = ctrCoord
         self._vertexCoordList = tuple(vertexCoordList)
         self._tractOverlap = tractOverlap
-        self._tractBuilder = tractBuilder
+        # The builder holds the patch grid of the tract that it was set up
+        # for, so a tract must not share it with the rest of the sky map.
+        self._tractBuilder = copy.copy(tractBuilder)
         self._innerBoxCorners = innerBoxCorners
 
         minBBox = self._minimumBoundingBox(wcs)
-- 
2.43.0


From 81b2810a1c2646c39c1e538875fe4ee342aa7207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 02/14] fix: unpack bands by their packed integer

The band was looked up by insertion position, which differs from its integer
when an explicit mapping is not 0, 1, 2, ... in order.
---
 python/lsst/skymap/packers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 3b17326..7e9de29 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -270,7 +270,7 @@ class SkyMapDimensionPacker(DimensionPacker):
         if self._n_bands:
             index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
             if self._bands_list is None:
-                self._bands_list = list(self._bands)
+                self._bands_list = {i: b for b, i in self._bands.items()}
             d["band"] = self._bands_list[index]
         d["tract"], d["patch"] = divmod(packedId, self._n_patches)
         return DataCoordinate.standardize(d, dimensions=self.dimensions)
-- 
2.43.0


From 4b672e6bf94e8f770de0eccb1565208036a56e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 03/14] fix: refuse to pack negative tract, patch and band
 indices

---
 python/lsst/skymap/packers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 7e9de29..812e6d5 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -245,9 +245,9 @@ class SkyMapDimensionPacker(DimensionPacker):
 
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DataIdPacker.pack
-        if dataId["patch"] >= self._n_patches:
+        if not 0 <= dataId["patch"] < self._n_patches:
             raise ValueError(f"Patch ID {dataId['patch']} is out of bounds; expected <{self._n_patches}.")
-        if dataId["tract"] >= self._n_tracts:
+        if not 0 <= dataId["tract"] < self._n_tracts:
             raise ValueError(f"Tract ID {dataId['tract']} is out of bounds; expected <{self._n_tracts}.")
         packed = dataId["patch"] + self._n_patches * dataId["tract"]
         if self._n_bands:
@@ -256,7 +256,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                     f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                     f"configuration; expected one of {list(self._bands)}."
                 )
-            if band_index >= self._n_bands:
+            if not 0 <= band_index < self._n_bands:
                 raise ValueError(
                     f"Band index {band_index} for {dataId['band']!r} is out of bounds; "
                     f"expected <{self._n_bands}."
-- 
2.43.0


From 0c87dfbca21e0bbdbeae7541a50bd639c17b0927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 04/14] fix: reject n_bands=0 when the packed dimensions
 include band

The band was silently dropped and unpack failed.
---
 python/lsst/skymap/packers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 812e6d5..a3921eb 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -165,6 +165,10 @@ class SkyMapDimensionPacker(DimensionPacker):
                     )
                 if n_bands is None:
                     n_bands = len(bands)
+                if n_bands == 0:
+                    raise ValueError(
+                        f"Invalid dimensions for skymap dimension packer with n_bands=0: {dimensions}."
+                    )
         if n_tracts is None:
             n_tracts = fixed.records["skymap"].tract_max
         if n_patches is None:
-- 
2.43.0


From 78042637e0dcf955e2dd4038bb7baa5d507638e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 05/14] fix: do not let the packer alias the caller's band
 mapping

---
 python/lsst/skymap/packers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index a3921eb..d9126f5 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -177,7 +177,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                 * fixed.records["skymap"].patch_ny_max
             )
         super().__init__(fixed, dimensions)
-        self._bands = bands
+        self._bands = dict(bands)
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-- 
2.43.0


From 863682fe0d7b06079e46e86cda9b717b349cb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 06/14] fix: validate the fields of CellTractBuilderConfig

---
 python/lsst/skymap/tractBuilder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 1757a35..02af4bd 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -292,6 +292,7 @@ class CellTractBuilderConfig(BaseTractBuilderConfig):
     )
 
     def validate(self):
+        super().validate()
         if len(self.cellInnerDimensions) != 2:
             raise ValueError("cellInnerDimensions must be 2 ints.")
 
-- 
2.43.0


From 12aa3ef9f0460d77373b5eeb3c0e45a541a1206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 07/14] fix: accept scalar degrees in
 RingsSkyMap.findTractIdArray

---
 python/lsst/skymap/ringsSkyMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 9f9cdbf..9de8e8b 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -261,8 +261,8 @@ class RingsSkyMap(CachingSkyMap):
 
     def findTractIdArray(self, ra, dec, degrees=False):
         if degrees:
-            _ra = np.deg2rad(ra)
-            _dec = np.deg2rad(dec)
+            _ra = np.deg2rad(np.atleast_1d(ra))
+            _dec = np.deg2rad(np.atleast_1d(dec))
         else:
             _ra = np.atleast_1d(ra)
             _dec = np.atleast_1d(dec)
-- 
2.43.0


From 8dea9e8627e322c0492cb5812fe1ec36cc34b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 08/14] fix: raise IndexError for out-of-range cell indices, as
 documented

---
 python/lsst/skymap/patchInfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index ba80d2a..0b9c7a6 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -308,6 +308,8 @@ class PatchInfo:
         else:
             _index = Index2D(*index)
         nx, ny = self.getNumCells()
+        if not (0 <= _index.x < nx and 0 <= _index.y < ny):
+            raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" % (_index, nx - 1, ny - 1))
         return nx*_index.y + _index.x
 
     def getCellIndexPair(self, sequentialIndex):
@@ -330,6 +332,9 @@ class PatchInfo:
             raise IndexError("Patch does not contain cells.")
 
         nx, ny = self.getNumCells()
+        if not 0 <= sequentialIndex < nx*ny:
+            raise IndexError("Sequential cell index %s is not in range [0-%d]" %
+                             (sequentialIndex, nx*ny - 1))
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
-- 
2.43.0


From c31c3dea7c98d681bbfbbd3c42b6a50896393c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 09/14] fix: do not hand out references to internal boxes and
 dimensions

A caller that modified a returned box, extent or vertex list changed the
geometry of the (conceptually immutable) sky map.
---
 python/lsst/skymap/cellInfo.py     | 5 +++--
 python/lsst/skymap/patchInfo.py    | 6 +++---
 python/lsst/skymap/tractBuilder.py | 2 +-
 python/lsst/skymap/tractInfo.py    | 2 +-
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/lsst/skymap/cellInfo.py b/python/lsst/skymap/cellInfo.py
index aab53cd..67aae0f 100644
--- a/python/lsst/skymap/cellInfo.py
+++ b/python/lsst/skymap/cellInfo.py
@@ -22,6 +22,7 @@
 
 __all__ = ["CellInfo"]
 
+from lsst.geom import Box2I
 from .detail import makeSkyPolygonFromBBox
 
 
@@ -96,7 +97,7 @@ class CellInfo:
         bbox : `lsst.geom.Box2I`
             The inner bounding Box.
         """
-        return self._innerBBox
+        return Box2I(self._innerBBox)
 
     inner_bbox = property(getInnerBBox)
 
@@ -108,7 +109,7 @@ class CellInfo:
         bbox : `lsst.geom.Box2I`
             The outer bounding Box.
         """
-        return self._outerBBox
+        return Box2I(self._outerBBox)
 
     outer_bbox = property(getOuterBBox)
 
diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index 0b9c7a6..6f32424 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -130,7 +130,7 @@ class PatchInfo:
         bbox : `lsst.geom.Box2I`
             The inner bounding Box.
         """
-        return self._innerBBox
+        return Box2I(self._innerBBox)
 
     inner_bbox = property(getInnerBBox)
 
@@ -142,7 +142,7 @@ class PatchInfo:
         bbox : `lsst.geom.Box2I`
             The outer bounding Box.
         """
-        return self._outerBBox
+        return Box2I(self._outerBBox)
 
     outer_bbox = property(getOuterBBox)
 
@@ -262,7 +262,7 @@ class PatchInfo:
     def getCellInnerDimensions(self):
         """Get dimensions of inner region of the cells (all are the same)
         """
-        return self._cellInnerDimensions
+        return Extent2I(self._cellInnerDimensions)
 
     cell_inner_dimensions = property(getCellInnerDimensions)
 
diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 02af4bd..a2a9b13 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -124,7 +124,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
     def getPatchInnerDimensions(self):
         """Get dimensions of inner region of the patches (all are the same)
         """
-        return self._patchInnerDimensions
+        return geom.Extent2I(self._patchInnerDimensions)
 
     def getSequentialPatchIndex(self, patchInfo):
         """Return a single integer that uniquely identifies
diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index 3ddeaad..92e3194 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -478,7 +478,7 @@ class ExplicitTractInfo(TractInfo):
         bboxD = geom.BoxD(self.getBBox())
         bboxD.grow(-0.001)
         finalWcs = self.getWcs()
-        self._vertexCoordList = finalWcs.pixelToSky(bboxD.getCorners())
+        self._vertexCoordList = tuple(finalWcs.pixelToSky(bboxD.getCorners()))
 
     def _minimumBoundingBox(self, wcs):
         """Calculate the minimum bounding box for the tract, given the WCS, and
-- 
2.43.0


From f81e4f228b7c117e27f123aed29114b306621cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 10/14] fix: return copies of the dodecahedron face vectors

A slice of a numpy array is a view.
---
 python/lsst/skymap/detail/dodecahedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/detail/dodecahedron.py b/python/lsst/skymap/detail/dodecahedron.py
index 4db56c9..3fcd875 100755
--- a/python/lsst/skymap/detail/dodecahedron.py
+++ b/python/lsst/skymap/detail/dodecahedron.py
@@ -52,7 +52,7 @@ class Dodecahedron:
         results : `list` of `numpy.ndarray`
             A list of face centers (in index order); each a unit vector.
         """
-        return self.faceVecList[:]
+        return [faceVec.copy() for faceVec in self.faceVecList]
 
     def getFaceCtr(self, ind):
         """Return the center of the specified face.
@@ -67,7 +67,7 @@ class Dodecahedron:
         results : `numpy.ndarray`
             Face center as a unit vector.
         """
-        return self.faceVecList[ind][:]
+        return self.faceVecList[ind].copy()
 
     def getVertices(self, ind):
         """Return the vertices for a given face.
-- 
2.43.0


From 503c3717c684b9c2b9d160480c549ea81b80e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 11/14] fix: let PatchInfo and CellInfo be compared with other
 types

---
 python/lsst/skymap/cellInfo.py  | 4 +++-
 python/lsst/skymap/patchInfo.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/cellInfo.py b/python/lsst/skymap/cellInfo.py
index 67aae0f..4b34014 100644
--- a/python/lsst/skymap/cellInfo.py
+++ b/python/lsst/skymap/cellInfo.py
@@ -154,12 +154,14 @@ class CellInfo:
         return self.getOuterSkyPolygon()
 
     def __eq__(self, rhs):
+        if not isinstance(rhs, CellInfo):
+            return NotImplemented
         return (self.getIndex() == rhs.getIndex()) \
             and (self.getInnerBBox() == rhs.getInnerBBox()) \
             and (self.getOuterBBox() == rhs.getOuterBBox())
 
     def __ne__(self, rhs):
-        return not self.__eq__(rhs)
+        return not (self == rhs)
 
     def __str__(self):
         return "CellInfo(index=%s)" % (self.getIndex(),)
diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index 6f32424..e9556ba 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -353,6 +353,8 @@ class PatchInfo:
         return self.getCellInfo(index)
 
     def __eq__(self, rhs):
+        if not isinstance(rhs, PatchInfo):
+            return NotImplemented
         return (self.getIndex() == rhs.getIndex()) \
             and (self.getInnerBBox() == rhs.getInnerBBox()) \
             and (self.getOuterBBox() == rhs.getOuterBBox()) \
@@ -360,7 +362,7 @@ class PatchInfo:
             and (self.getCellBorder() == rhs.getCellBorder())
 
     def __ne__(self, rhs):
-        return not self.__eq__(rhs)
+        return not (self == rhs)
 
     def __str__(self):
         return "PatchInfo(index=%s)" % (self.getIndex(),)
-- 
2.43.0


From 1b7c8d7dcf5874ae29f2c714b16a5eb4272dc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 12/14] fix: apply a veto list of one visit in showVisitSkyMap

---
 doc/_static/skymap/showVisitSkyMap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doc/_static/skymap/showVisitSkyMap.py b/doc/_static/skymap/showVisitSkyMap.py
index 6421e58..d88097e 100755
--- a/doc/_static/skymap/showVisitSkyMap.py
+++ b/doc/_static/skymap/showVisitSkyMap.py
@@ -215,7 +215,7 @@ def main(
         visits.sort()
         logger.info("List of visits (N=%d) satisfying where and veto clauses: %s", len(visits), visits)
     else:
-        if len(visitVetoList) > 1:
+        if len(visitVetoList) > 0:
             visitListTemp = visits.copy()
             for visit in visitListTemp:
                 if visit in visitVetoList:
-- 
2.43.0


From e4d1aeea313a3d251c85c212a4979c7b15f810bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 13/14] fix: reject non-finite pixel positions in
 TractInfo.findPatch

As TractInfo.contains does: converting NaN to an integer pixel is undefined,
and yields the lower left patch on some platforms.
---
 python/lsst/skymap/tractInfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index 92e3194..07ba5f5 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -217,6 +217,9 @@ class TractInfo:
         except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
             # Point must be way off the tract
             raise LookupError("Unable to determine pixel position for coordinate %s" % (coord,))
+        if not np.isfinite(pixel.getX()) or not np.isfinite(pixel.getY()):
+            # Point is definitely off the tract
+            raise LookupError("Unable to determine pixel position for coordinate %s" % (coord,))
         pixelInd = geom.Point2I(pixel)
         if not self._bbox.contains(pixelInd):
             raise LookupError("coord %s is not in tract %s" % (coord, self.tract_id))
-- 
2.43.0


From cb0c6bd2c560dcd45e9ab5eabb93eab02b249661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:00 +0000
Subject: [PATCH 14/14] fix: a sky map is unequal to anything that is not a sky
 map

Comparing with an object whose getSha1 is not a bound method without
arguments, such as a sky map class, raised TypeError.
---
 python/lsst/skymap/baseSkyMap.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/lsst/skymap/baseSkyMap.py b/python/lsst/skymap/baseSkyMap.py
index b82c43d..c69e1b3 100755
--- a/python/lsst/skymap/baseSkyMap.py
+++ b/python/lsst/skymap/baseSkyMap.py
@@ -309,10 +309,9 @@ class BaseSkyMap:
         return hash(self.getSha1())
 
     def __eq__(self, other):
-        try:
-            return self.getSha1() == other.getSha1()
-        except AttributeError:
+        if not isinstance(other, BaseSkyMap):
             return NotImplemented
+        return self.getSha1() == other.getSha1()
 
     def __ne__(self, other):
         return not (self == other)
-- 
2.43.0

