"""Small pure-Python stand-in for lsst.afw.geom (demonstrations only)."""
import math
import numpy as np
import lsst.geom as geom
from lsst.pex.exceptions import DomainError, RuntimeError


def makeCdMatrix(scale, orientation=0*geom.radians, flipX=False):
    s = scale.asDegrees()
    c, sn = math.cos(orientation.asRadians()), math.sin(orientation.asRadians())
    fx = -1.0 if flipX else 1.0
    return np.array([[c*s*fx, sn*s], [-sn*s*fx, c*s]])


def makeSkyWcs(crpix, crval, cdMatrix, projection="TAN"):
    return SkyWcs(crpix, crval, cdMatrix, projection)


class SkyWcs:
    def __init__(self, crpix, crval, cd, projection):
        self.crpix, self.crval, self.cd, self.projection = geom.Point2D(crpix), crval, np.array(cd), projection
        if projection not in ("TAN", "STG", "CEA"):
            raise RuntimeError("projection %s not supported" % projection)

    def copyAtShiftedPixelOrigin(self, off):
        return SkyWcs(geom.Point2D(self.crpix[0] + off[0], self.crpix[1] + off[1]), self.crval, self.cd,
                      self.projection)

    def getPixelOrigin(self):
        return self.crpix

    def getSkyOrigin(self):
        return self.crval

    def getCdMatrix(self):
        return self.cd

    def _frame(self):
        lon, lat = self.crval.getLongitude().asRadians(), self.crval.getLatitude().asRadians()
        r = np.array([math.cos(lat)*math.cos(lon), math.cos(lat)*math.sin(lon), math.sin(lat)])
        e = np.array([-math.sin(lon), math.cos(lon), 0.0])
        n = np.cross(r, e)
        return r, e, n

    def skyToPixel(self, sky):
        if isinstance(sky, (list, tuple)):
            return [self.skyToPixel(s) for s in sky]
        if not sky.isFinite():
            return geom.Point2D(math.nan, math.nan)
        v = np.array(sky._xyz())
        r, e, n = self._frame()
        z, x, y = v @ r, v @ e, v @ n
        if self.projection == "TAN":
            if z <= 1e-10:
                raise RuntimeError("point is behind the tangent plane")
            xi, eta = x/z, y/z
        elif self.projection == "STG":
            if z <= -1 + 1e-12:
                raise DomainError("antipode")
            xi, eta = 2*x/(1 + z), 2*y/(1 + z)
        else:
            xi, eta = math.atan2(x, z), y
        # +ve xi is west in pixel space for unflipped lsst convention: keep it simple (east = -x)
        iwc = np.array([-xi, eta])*180/math.pi
        px = np.linalg.solve(self.cd, iwc)
        return geom.Point2D(px[0] + self.crpix[0], px[1] + self.crpix[1])

    def pixelToSky(self, *args):
        if len(args) == 2:
            return self.pixelToSky(geom.Point2D(*args))
        p = args[0]
        if isinstance(p, (list, tuple)):
            return [self.pixelToSky(q) for q in p]
        iwc = self.cd @ np.array([p[0] - self.crpix[0], p[1] - self.crpix[1]])
        xi, eta = -math.radians(iwc[0]), math.radians(iwc[1])
        r, e, n = self._frame()
        if self.projection == "TAN":
            v = r + xi*e + eta*n
        elif self.projection == "STG":
            d2 = (xi*xi + eta*eta)/4
            z = (1 - d2)/(1 + d2)
            v = z*r + xi*(1 + z)/2*e + eta*(1 + z)/2*n
        else:
            c = math.sqrt(max(0.0, 1 - eta*eta))
            v = c*math.cos(xi)*r + c*math.sin(xi)*e + eta*n
        return geom.SpherePoint([float(t) for t in v])

    def __eq__(self, o):
        return (isinstance(o, SkyWcs) and self.crpix == o.crpix and self.crval == o.crval
                and np.array_equal(self.cd, o.cd) and self.projection == o.projection)
    __hash__ = None
