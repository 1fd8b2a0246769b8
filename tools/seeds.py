"""Planted bugs: edits of /repo and demonstrations (see plant.py)."""
P = "python/lsst/skymap/"
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = {"property": prop, "needs": needs, "breaks": breaks,
                  "edits": [(P + f, a, b) for f, a, b in edits], "demo": demo}


seed("rings-search-wrap", "C14",
     "a rings map whose neighbouring rings have different numbers of tracts and a coordinate just east or west of raStart",
     "the search around a coordinate wraps the tract number with the size of the coordinate's own ring instead of the "
     "ring being searched, so it looks at the wrong tract (or past the end) in the neighbouring rings",
     [("ringsSkyMap.py", """                if t < 0:
                    t = t + self._ringNums[r]""", """                if t < 0:
                    t = t + self._ringNums[min(max(ringNum, 0), self.config.numRings - 1)]""")],
     """
import lsst.geom as geom
from lsst.skymap.ringsSkyMap import RingsSkyMap
conf = RingsSkyMap.ConfigClass()
conf.numRings = 5
conf.projection = "TAN"
conf.pixelScale = 60.0
conf.tractOverlap = 10.0
m = RingsSkyMap(conf)
size = m._ringSize
for ring in range(5):
    for frac in (-0.45, 0.45):
        for k in (0.1, -0.1):
            dec = size*(ring + 1 + frac) - 0.5*3.14159265358979
            c = geom.SpherePoint(k*geom.degrees, dec*geom.radians)
            got = sorted(t.getId() for t in m.findAllTracts(c))
            want = set()
            for r in range(max(ring - 1, 0), min(ring + 2, 5)):
                n = m._ringNums[r]
                at = m._raToTractNum(c.getLongitude(), r)
                for t in (at - 1, at, at + 1):
                    i = 1 + sum(m._ringNums[:r]) + t % n
                    if m[i].contains(c):
                        want.add(i)
            for i in (0, len(m) - 1):
                if m[i].contains(c):
                    want.add(i)
            assert set(got) == want, (c, got, want)
""")

seed("rings-array-fmod", "C10",
     "raStart above 0 (or negative right ascensions) and a coordinate west of raStart",
     "the array lookup takes the remainder with the sign of the dividend, so a coordinate west of raStart gets a "
     "negative position in the ring and a wrong tract",
     [("ringsSkyMap.py", """(_ra[inRange] - self._raStart.asRadians()) % (2.*np.pi)""",
       """np.fmod(_ra[inRange] - self._raStart.asRadians(), 2.*np.pi)""")],
     """
import numpy as np
import lsst.geom as geom
from lsst.skymap.ringsSkyMap import RingsSkyMap
conf = RingsSkyMap.ConfigClass()
conf.numRings = 6
conf.pixelScale = 60.0
conf.raStart = 100.0
m = RingsSkyMap(conf)
ra = np.linspace(1., 359., 37)
dec = np.linspace(-80., 80., 37)
got = m.findTractIdArray(ra, dec, degrees=True)
want = [m.findTract(geom.SpherePoint(r*geom.degrees, d*geom.degrees)).getId() for r, d in zip(ra, dec)]
assert list(got) == want, (list(got), want)
""")

seed("patch-index-columns", "C18",
     "a tract with different numbers of patches in x and y",
     "the sequential index is decoded with the number of patches in y",
     [("tractBuilder.py", """        nx, ny = self._numPatches
        x = sequentialIndex % nx
        y = sequentialIndex // nx
        return Index2D(x=x, y=y)""", """        ny = self._numPatches.y
        x = sequentialIndex % ny
        y = sequentialIndex // ny
        return Index2D(x=x, y=y)""")],
     """
from lsst.skymap import EquatSkyMap
conf = EquatSkyMap.ConfigClass()
conf.numTracts = 3
conf.pixelScale = 20.0
conf.patchInnerDimensions = (500, 700)
m = EquatSkyMap(conf)
t = m[1]
nx, ny = t.getNumPatches()
assert nx != ny
for i, p in enumerate(t):
    assert t[i] == p
    assert t.getPatchIndexPair(t.getSequentialPatchIndex(p)) == p.getIndex()
""")

seed("patchlist-upper-edge", "C21",
     "a coordinate list whose box, grown by the border, ends exactly on the first column or row of a further patch",
     "the last patch of the list is computed from the exclusive end of the box minus two pixels, so a patch touched "
     "by one column or row only is missing",
     [("tractInfo.py", """        urPatchInd = tuple(int(bbox.getMax()[i]/self.patch_inner_dimensions[i]) for i in range(2))""",
       """        urPatchInd = tuple(int(max(bbox.getMin()[i], bbox.getMax()[i] - 1)/self.patch_inner_dimensions[i])
                           for i in range(2))""")],
     """
import lsst.geom as geom
from lsst.skymap import DiscreteSkyMap
conf = DiscreteSkyMap.ConfigClass()
conf.raList, conf.decList, conf.radiusList = [30.], [10.], [2.]
conf.pixelScale = 10.0
conf.patchInnerDimensions = (200, 200)
conf.patchBorder = 10
m = DiscreteSkyMap(conf)
t = m[0]
assert t.getNumPatches()[0] > 3
wcs = t.getWcs()
for x in (188, 189, 190, 191, 192, 388, 389, 390, 391):
    c = wcs.pixelToSky(geom.Point2D(x, 95.0))
    got = {p.getIndex() for p in t.findPatchList([c])}
    box = geom.Box2I(geom.Point2I(x - 10, 85), geom.Point2I(x + 10, 105))
    want = {p.getIndex() for p in t if p.getInnerBBox().overlaps(box)}
    assert got == want, (x, got, want)
""")

seed("outer-clip-before-grow", "C16",
     "a patch at the far edge of the tract",
     "the outer box is clipped to the tract before it is grown by the border, so edge patches stick out of the tract",
     [("tractBuilder.py", """        outerBBox.grow(self.getPatchBorder())
        outerBBox.clip(self._tractBBox)
""", """        outerBBox.clip(self._tractBBox)
        outerBBox.grow(self.getPatchBorder())
""")],
     """
from lsst.skymap import DiscreteSkyMap
conf = DiscreteSkyMap.ConfigClass()
conf.raList, conf.decList, conf.radiusList = [30.], [10.], [2.]
conf.pixelScale = 10.0
conf.patchInnerDimensions = (200, 200)
conf.patchBorder = 10
t = DiscreteSkyMap(conf)[0]
for p in t:
    assert t.getBBox().contains(p.getOuterBBox()), p
""")

seed("cap-range", "C12",
     "the declination range of the north cap of a rings map",
     "the north cap starts one ring size below the pole, so it overlaps the last ring",
     [("ringsSkyMap.py", """            decMin = (-np.pi/2. + (ringNum + 0.5)*self._ringSize)*geom.radians
            decMax = (np.pi/2.)*geom.radians""", """            decMax = (np.pi/2.)*geom.radians
            decMin = decMax - self._ringSize*geom.radians""")],
     """
from lsst.skymap.ringsSkyMap import RingsSkyMap
conf = RingsSkyMap.ConfigClass()
conf.numRings = 4
conf.pixelScale = 60.0
m = RingsSkyMap(conf)
a = m.getRaDecRange(len(m) - 2)
b = m.getRaDecRange(len(m) - 1)
assert abs(a[3].asRadians() - b[2].asRadians()) < 1e-9, (a, b)
""")

seed("lost-version", "C08",
     "a rings map of software version 0 that is pickled and restored",
     "the pickle keeps only the configuration, so a version 0 map comes back with the tract numbering of version 1",
     [("cachingSkyMap.py", """        return (self.__class__, (self.config, self._version))""",
       """        return (self.__class__, (self.config,))""")],
     """
import lsst.geom as geom
from lsst.skymap.ringsSkyMap import RingsSkyMap
conf = RingsSkyMap.ConfigClass()
conf.numRings = 3
conf.pixelScale = 60.0
m = RingsSkyMap(conf, version=0)
make, args = m.__reduce__()[:2]
n = make(*args)
c = geom.SpherePoint(0.5*geom.degrees, 1.0*geom.degrees)
assert m.findTract(c).getId() == n.findTract(c).getId()
""")

seed("exact-multiple", "C15",
     "a minimum box whose size is an exact multiple of the patch size in x or y",
     "the number of patches is only stored if the box had to grow, so a tract that fits exactly has no patches",
     [("tractBuilder.py", """                bboxMin[i] -= deltaDim // 2
            numPatchesList[i] = num""", """                bboxMin[i] -= deltaDim // 2
                numPatchesList[i] = num""")],
     """
from lsst.skymap import DiscreteSkyMap
conf = DiscreteSkyMap.ConfigClass()
conf.raList, conf.decList, conf.radiusList = [30.], [10.], [1.]
conf.pixelScale = 600.0
conf.patchInnerDimensions = (1, 1)
conf.patchBorder = 0
t = DiscreteSkyMap(conf)[0]
nx, ny = t.getNumPatches()
assert (nx, ny) == tuple(t.getBBox().getDimensions()), (nx, ny, t.getBBox())
""")

seed("no-cells-in-border", "C17",
     "a cell-based tract builder with no cells in the patch border",
     "without cells in the border the patch has no border at all, so the outer boxes of its outermost cells stick out",
     [("tractBuilder.py", """        self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0] + self._cellBorder""",
       """        self._patchBorder = 0
        if config.numCellsInPatchBorder > 0:
            self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0] + self._cellBorder""")],
     """
from lsst.skymap import DiscreteSkyMap
conf = DiscreteSkyMap.ConfigClass()
conf.raList, conf.decList, conf.radiusList = [30.], [10.], [1.]
conf.pixelScale = 20.0
conf.tractBuilder.name = "cells"
cells = conf.tractBuilder["cells"]
for border in (1, 0):
    cells.cellInnerDimensions = (20, 20)
    cells.cellBorder = 5
    cells.numCellsPerPatchInner = 4
    cells.numCellsInPatchBorder = border
    t = DiscreteSkyMap(conf)[0]
    p = t[0]
    for c in p:
        assert p.getOuterBBox().contains(c.getOuterBBox()), (border, p, c)
    conf = DiscreteSkyMap.ConfigClass()
    conf.raList, conf.decList, conf.radiusList = [30.], [10.], [1.]
    conf.pixelScale = 20.0
    conf.tractBuilder.name = "cells"
    cells = conf.tractBuilder["cells"]
""")

seed("wcs-memo", "C02",
     "two tracts at the same right ascension that are built one after the other",
     "the factory keeps the last WCS and hands it out again for a center of the same right ascension, so a tract "
     "depends on which tract was built before it",
     [("detail/wcsFactory.py", """        return afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,
                                  cdMatrix=self._cdMatrix, projection=self._projection)""",
       """        key = (crPixPos, crValCoord.getLongitude())
        if getattr(self, "_last", (None,))[0] != key:
            self._last = key, afwGeom.makeSkyWcs(crpix=crPixPos, crval=crValCoord,
                                                 cdMatrix=self._cdMatrix, projection=self._projection)
        return self._last[1]""")],
     """
from lsst.skymap import DiscreteSkyMap


def make():
    conf = DiscreteSkyMap.ConfigClass()
    conf.raList, conf.decList, conf.radiusList = [30., 30.], [10., 40.], [1., 1.]
    conf.pixelScale = 20.0
    return DiscreteSkyMap(conf)


a, b = make(), make()
b[0]
c = a[1].getCtrCoord()
p, q = a[1].getWcs().skyToPixel(c), b[1].getWcs().skyToPixel(c)
assert abs(p.getX() - q.getX()) < 1e-3 and abs(p.getY() - q.getY()) < 1e-3, (p, q)
""")

seed("zero-region", "C24",
     "the inner sky region of tract 0 of a map that gives its tracts inner box corners",
     "the corners are ignored for the tract with number 0, which gets the hull of its vertices instead",
     [("tractInfo.py", """        if self._innerBoxCorners:
            return Box(point1""", """        if self._id and self._innerBoxCorners:
            return Box(point1""")],
     """
import lsst.sphgeom
from lsst.skymap.ringsSkyMap import RingsSkyMap
conf = RingsSkyMap.ConfigClass()
conf.numRings = 3
conf.pixelScale = 60.0
m = RingsSkyMap(conf)
for i in (0, 1, len(m) - 1):
    assert type(m[i].getInnerSkyRegion()).__name__ == "Box", m[i].getInnerSkyRegion()
""")

seed("equat-last-center", "C33",
     "the last tract of an equatorial map, whose eastern edge is at 360 degrees",
     "the middle of a tract is computed from its wrapped eastern edge, so the center of the last tract lies half way round",
     [("equatSkyMap.py", """            midRA = begRA + tractWidthRA / 2.0""",
       """            midRA = (begRA + (begRA + tractWidthRA).wrap()) / 2.0""")],
     """
from lsst.skymap import EquatSkyMap
conf = EquatSkyMap.ConfigClass()
conf.numTracts = 4
conf.pixelScale = 60.0
m = EquatSkyMap(conf)
for i, t in enumerate(m):
    assert abs(t.getCtrCoord().getLongitude().asDegrees() - (i + 0.5)*90) < 1e-6, (i, t)
""")

seed("clipped-tract", "C03",
     "a patch search followed by any other query of the same tract",
     "the search clips the box of the tract itself, so the tract shrinks to the region searched for",
     [("tractInfo.py", """        bbox.clip(self._bbox)
        if bbox.isEmpty():
            return ()
""", """        if not bbox.overlaps(self._bbox):
            return ()
        found = self._bbox
        found.clip(bbox)
        bbox = found
""")],
     """
import lsst.geom as geom
from lsst.skymap import DiscreteSkyMap
conf = DiscreteSkyMap.ConfigClass()
conf.raList, conf.decList, conf.radiusList = [30.], [10.], [2.]
conf.pixelScale = 20.0
conf.patchInnerDimensions = (100, 100)
conf.patchBorder = 10
t = DiscreteSkyMap(conf)[0]
before = geom.Box2I(t.getBBox())
t.findPatchList([t.getCtrCoord()])
assert t.getBBox() == before, (t.getBBox(), before)
""")

seed("height-as-width", "C05",
     "two maps that differ only in the height of their patches",
     "the width of the patches is packed twice into the identity hash and the height not at all",
     [("tractBuilder.py", """            subConfig.patchInnerDimensions[0],
            subConfig.patchInnerDimensions[1],
            subConfig.patchBorder,""", """            self._patchInnerDimensions[0],
            self._patchInnerDimensions[0],
            subConfig.patchBorder,""")],
     """
from lsst.skymap import EquatSkyMap


def make(dims):
    conf = EquatSkyMap.ConfigClass()
    conf.numTracts = 2
    conf.pixelScale = 600.0
    conf.patchInnerDimensions = dims
    return EquatSkyMap(conf)


assert make((50, 60)).getSha1() == make((50, 60)).getSha1()
assert make((50, 60)).getSha1() != make((50, 70)).getSha1()
""")
