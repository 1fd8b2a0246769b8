"""Small pure-Python stand-in for lsst.geom (demonstrations only).

It reproduces the documented behaviour of the parts of lsst.geom that
lsst.skymap uses; it is never consulted by a check.
"""
import math
import lsst.sphgeom as _sg


class AngleUnit:
    def __init__(self, factor, name):
        self.factor = factor
        self.name = name

    def __rmul__(self, value):
        return Angle(float(value), self)

    def __eq__(self, other):
        return isinstance(other, AngleUnit) and self.factor == other.factor

    def __hash__(self):
        return hash(self.factor)


radians = AngleUnit(1.0, "radians")
degrees = AngleUnit(math.pi/180.0, "degrees")
hours = AngleUnit(math.pi/12.0, "hours")
arcminutes = AngleUnit(math.pi/180.0/60.0, "arcminutes")
arcseconds = AngleUnit(math.pi/180.0/3600.0, "arcseconds")


def _v(x):
    return x._r if isinstance(x, Angle) else float(x)


class Angle:
    __slots__ = ("_r",)

    def __init__(self, val=0.0, unit=radians):
        self._r = val._r if isinstance(val, Angle) else float(val)*unit.factor

    def asRadians(self):
        return self._r

    def asDegrees(self):
        return self._r/degrees.factor

    def asArcminutes(self):
        return self._r/arcminutes.factor

    def asArcseconds(self):
        return self._r/arcseconds.factor

    def wrap(self):
        r = self._r % (2*math.pi)
        return Angle(0.0 if r >= 2*math.pi else r)

    def __float__(self):
        return self._r

    def __add__(self, o):
        return Angle(self._r + _v(o))
    __radd__ = __add__

    def __sub__(self, o):
        return Angle(self._r - _v(o))

    def __rsub__(self, o):
        return Angle(_v(o) - self._r)

    def __mul__(self, o):
        return Angle(self._r*float(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Angle(self._r/float(o))

    def __neg__(self):
        return Angle(-self._r)

    def __abs__(self):
        return Angle(abs(self._r))

    def __eq__(self, o):
        try:
            return self._r == _v(o)
        except (TypeError, ValueError):
            return NotImplemented

    def __lt__(self, o):
        return self._r < _v(o)

    def __le__(self, o):
        return self._r <= _v(o)

    def __gt__(self, o):
        return self._r > _v(o)

    def __ge__(self, o):
        return self._r >= _v(o)

    def __hash__(self):
        return hash(self._r)

    def __repr__(self):
        return "Angle(%r rad)" % self._r

    def __reduce__(self):
        return (Angle, (self._r,))


class SpherePoint:
    def __init__(self, *args):
        if len(args) == 1:
            v = args[0]
            if isinstance(v, SpherePoint):
                self._lon, self._lat = v._lon, v._lat
                return
            x, y, z = v[0], v[1], v[2]
            n = math.sqrt(x*x + y*y + z*z)
            self._lon = math.atan2(y, x) % (2*math.pi)
            self._lat = math.atan2(z, math.hypot(x, y)) if n else float("nan")
            return
        lon, lat = args[0], args[1]
        if len(args) == 3:
            lon, lat = Angle(lon, args[2]), Angle(lat, args[2])
        lat = _v(lat)
        if abs(lat) > math.pi/2 + 1e-12:
            raise ValueError("Angle %s out of range" % lat)
        self._lon = _v(lon) % (2*math.pi)
        self._lat = min(max(lat, -math.pi/2), math.pi/2) if lat == lat else lat

    def getLongitude(self):
        return Angle(self._lon)
    getRa = getLongitude

    def getLatitude(self):
        return Angle(self._lat)
    getDec = getLatitude

    def isFinite(self):
        return math.isfinite(self._lon) and math.isfinite(self._lat)

    def _xyz(self):
        c = math.cos(self._lat)
        return (c*math.cos(self._lon), c*math.sin(self._lon), math.sin(self._lat))

    def getVector(self):
        return _sg.UnitVector3d(*self._xyz())

    def getPosition(self, unit):
        return Point2D(self._lon/unit.factor, self._lat/unit.factor)

    def separation(self, other):
        a, b = self._xyz(), other._xyz()
        dot = sum(p*q for p, q in zip(a, b))
        cr = (a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0])
        return Angle(math.atan2(math.sqrt(sum(c*c for c in cr)), dot))

    def bearingTo(self, other):
        # from east towards north, in [0, 2 pi)
        sl, cl = math.sin(self._lat), math.cos(self._lat)
        so, co = math.sin(self._lon), math.cos(self._lon)
        v = other._xyz()
        e = -so*v[0] + co*v[1]
        n = -sl*co*v[0] - sl*so*v[1] + cl*v[2]
        return Angle(math.atan2(n, e)).wrap()

    def offset(self, bearing, amount):
        b, d = _v(bearing), _v(amount)
        # bearing measured from east towards north, as in lsst.geom
        sl, cl = math.sin(self._lat), math.cos(self._lat)
        so, co = math.sin(self._lon), math.cos(self._lon)
        east = (-so, co, 0.0)
        north = (-sl*co, -sl*so, cl)
        r = (cl*co, cl*so, sl)
        v = [math.cos(d)*r[i] + math.sin(d)*(math.cos(b)*east[i] + math.sin(b)*north[i]) for i in range(3)]
        return SpherePoint(v)

    def __eq__(self, o):
        return isinstance(o, SpherePoint) and (self._lon, self._lat) == (o._lon, o._lat)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self._lon, self._lat))

    def __getitem__(self, i):
        return (self.getLongitude(), self.getLatitude())[i]

    def __repr__(self):
        return "SpherePoint(%.10f, %.10f deg)" % (math.degrees(self._lon), math.degrees(self._lat))


class _Pair:
    _int = False

    def __init__(self, *args):
        if len(args) == 0:
            args = (0, 0)
        elif len(args) == 1:
            a = args[0]
            args = (a[0], a[1]) if hasattr(a, "__getitem__") else (a, a)
        self._d = [self._conv(a) for a in args]

    def _conv(self, x):
        if not self._int:
            return float(x)
        if isinstance(x, float):
            if isinstance(self, _Point) and math.isfinite(x):
                return int(math.floor(x + 0.5))
            if not math.isfinite(x):
                return -2**31  # what x86 does for an out-of-range cast
            return int(x)
        import operator
        return operator.index(x)

    def getX(self):
        return self._d[0]

    def getY(self):
        return self._d[1]

    def setX(self, v):
        self[0] = v

    def setY(self, v):
        self[1] = v
    x = property(getX, setX)
    y = property(getY, setY)

    def __getitem__(self, i):
        return self._d[i]

    def __setitem__(self, i, v):
        self._d[i] = self._conv(v)

    def __len__(self):
        return 2

    def __iter__(self):
        return iter(list(self._d))

    def __eq__(self, o):
        return type(self) is type(o) and self._d == o._d

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __repr__(self):
        return "%s(%s, %s)" % (type(self).__name__, *self._d)

    def __add__(self, o):
        return type(self)(self._d[0] + o[0], self._d[1] + o[1])

    def __mul__(self, k):
        return type(self)(self._d[0]*k, self._d[1]*k)

    def __imul__(self, k):
        self._d = [self._conv(v*k) for v in self._d]
        return self

    def __iadd__(self, o):
        self._d = [self._conv(self._d[i] + o[i]) for i in range(2)]
        return self

    def __reduce__(self):
        return (type(self), tuple(self._d))


class _Point(_Pair):
    def __sub__(self, o):
        if isinstance(o, _Point):
            return (Extent2I if self._int else Extent2D)(self._d[0] - o[0], self._d[1] - o[1])
        return type(self)(self._d[0] - o[0], self._d[1] - o[1])


class Point2I(_Point):
    _int = True


class Point2D(_Point):
    pass


class Extent2I(_Pair):
    _int = True


class Extent2D(_Pair):
    pass


class Box2I:
    def __init__(self, *args):
        if not args:
            self._b, self._e = [0, 0], [0, 0]
        elif isinstance(args[0], Box2I):
            self._b, self._e = list(args[0]._b), list(args[0]._e)
        elif isinstance(args[0], Box2D):
            bx = args[0]
            if bx.isEmpty():
                self._b, self._e = [0, 0], [0, 0]
            else:  # EXPAND
                self._b = [int(math.floor(bx._lo[i] + 0.5)) for i in range(2)]
                self._e = [int(math.ceil(bx._hi[i] - 0.5)) + 1 for i in range(2)]
        else:
            lo, d = args
            if isinstance(d, Extent2I):
                self._b, self._e = [lo[0], lo[1]], [lo[0] + d[0], lo[1] + d[1]]
            else:
                self._b, self._e = [lo[0], lo[1]], [d[0] + 1, d[1] + 1]
        self._norm()

    def _norm(self):
        if self._e[0] <= self._b[0] or self._e[1] <= self._b[1]:
            self._b, self._e = [0, 0], [0, 0]

    def isEmpty(self):
        return self._e[0] <= self._b[0]

    def getMin(self):
        return Point2I(*self._b)
    getBegin = getMin

    def getMax(self):
        return Point2I(self._e[0] - 1, self._e[1] - 1)

    def getEnd(self):
        return Point2I(*self._e)

    def getMinX(self):
        return self._b[0]
    getBeginX = getMinX

    def getMinY(self):
        return self._b[1]
    getBeginY = getMinY

    def getMaxX(self):
        return self._e[0] - 1

    def getMaxY(self):
        return self._e[1] - 1

    def getEndX(self):
        return self._e[0]

    def getEndY(self):
        return self._e[1]

    def getWidth(self):
        return self._e[0] - self._b[0]

    def getHeight(self):
        return self._e[1] - self._b[1]

    def getDimensions(self):
        return Extent2I(self.getWidth(), self.getHeight())

    def getArea(self):
        return self.getWidth()*self.getHeight()

    def grow(self, k):
        if self.isEmpty():
            return
        kx, ky = (k, k) if not hasattr(k, "__getitem__") else (k[0], k[1])
        self._b = [self._b[0] - kx, self._b[1] - ky]
        self._e = [self._e[0] + kx, self._e[1] + ky]
        self._norm()

    def clip(self, o):
        if self.isEmpty():
            return
        if o.isEmpty():
            self._b, self._e = [0, 0], [0, 0]
            return
        self._b = [max(self._b[i], o._b[i]) for i in range(2)]
        self._e = [min(self._e[i], o._e[i]) for i in range(2)]
        self._norm()

    def shift(self, o):
        for i in range(2):
            self._b[i] += o[i]
            self._e[i] += o[i]

    def include(self, o):
        pts = [o] if not isinstance(o, Box2I) else ([] if o.isEmpty() else [o.getMin(), o.getMax()])
        for p in pts:
            if self.isEmpty():
                self._b, self._e = [p[0], p[1]], [p[0] + 1, p[1] + 1]
            for i in range(2):
                self._b[i] = min(self._b[i], p[i])
                self._e[i] = max(self._e[i], p[i] + 1)

    def contains(self, o):
        if isinstance(o, Box2I):
            return o.isEmpty() or (not self.isEmpty() and all(self._b[i] <= o._b[i] and o._e[i] <= self._e[i] for i in range(2)))
        return not self.isEmpty() and all(self._b[i] <= o[i] < self._e[i] for i in range(2))

    def overlaps(self, o):
        return not self.isEmpty() and not o.isEmpty() and all(
            self._b[i] < o._e[i] and o._b[i] < self._e[i] for i in range(2))

    def __eq__(self, o):
        return isinstance(o, Box2I) and (self._b, self._e) == (o._b, o._e)

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __repr__(self):
        return "Box2I(Point2I(%d, %d), Extent2I(%d, %d))" % (*self._b, self.getWidth(), self.getHeight())

    def getCorners(self):
        (x0, y0), (x1, y1) = self.getMin(), self.getMax()
        return [Point2I(x0, y0), Point2I(x1, y0), Point2I(x1, y1), Point2I(x0, y1)]


class Box2D:
    def __init__(self, *args):
        if not args:
            self._lo, self._hi = None, None
        elif isinstance(args[0], Box2I):
            b = args[0]
            if b.isEmpty():
                self._lo, self._hi = None, None
            else:
                self._lo = [v - 0.5 for v in b._b]
                self._hi = [v - 0.5 for v in b._e]
        elif isinstance(args[0], Box2D):
            self._lo = None if args[0]._lo is None else list(args[0]._lo)
            self._hi = None if args[0]._hi is None else list(args[0]._hi)
        else:
            lo, d = args
            self._lo = [float(lo[0]), float(lo[1])]
            self._hi = [lo[i] + d[i] for i in range(2)] if isinstance(d, Extent2D) else [float(d[0]), float(d[1])]

    def isEmpty(self):
        return self._lo is None

    def include(self, p):
        if isinstance(p, Box2D):
            if not p.isEmpty():
                self.include(p.getMin())
                self.include(p.getMax())
            return
        if not (math.isfinite(p[0]) and math.isfinite(p[1])):
            return
        if self._lo is None:
            self._lo, self._hi = [p[0], p[1]], [p[0], p[1]]
        else:
            self._lo = [min(self._lo[i], p[i]) for i in range(2)]
            self._hi = [max(self._hi[i], p[i]) for i in range(2)]

    def grow(self, k):
        if self._lo is not None:
            self._lo = [v - k for v in self._lo]
            self._hi = [v + k for v in self._hi]

    def getMin(self):
        return Point2D(*self._lo)

    def getMax(self):
        return Point2D(*self._hi)

    def getMinX(self):
        return self._lo[0]

    def getMinY(self):
        return self._lo[1]

    def getMaxX(self):
        return self._hi[0]

    def getMaxY(self):
        return self._hi[1]

    def getCenter(self):
        return Point2D(*((self._lo[i] + self._hi[i])/2 for i in range(2)))

    def getDimensions(self):
        return Extent2D(self._hi[0] - self._lo[0], self._hi[1] - self._lo[1])

    def getCorners(self):
        (x0, y0), (x1, y1) = self._lo, self._hi
        return [Point2D(x0, y0), Point2D(x1, y0), Point2D(x1, y1), Point2D(x0, y1)]

    def contains(self, o):
        if isinstance(o, Box2D):
            return o.isEmpty() or (not self.isEmpty() and all(
                self._lo[i] <= o._lo[i] and o._hi[i] <= self._hi[i] for i in range(2)))
        return self._lo is not None and all(self._lo[i] <= o[i] < self._hi[i] for i in range(2))

    def __eq__(self, o):
        return isinstance(o, Box2D) and (self._lo, self._hi) == (o._lo, o._hi)
    __hash__ = None

    def __repr__(self):
        return "Box2D(%s, %s)" % (self._lo, self._hi)


BoxD = Box2D
BoxI = Box2I
