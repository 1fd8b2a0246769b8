"""Rules about sky maps (C01-C04, C09-C14, C23, C32-C34)."""
import frames
import terms
from terms import (mk, num, add, sub, mul, neg, ONE, ZERO, TRUE, FALSE, sym, fact, restrict, and_, or_, not_, lt, le,
                   min_, max_, ceil_, div, floor_, lift, lift_num)
from interp import exc_name
from worlds import World, getitem, index_in, coord, CACHING
import worlds
from subjects import Subject, subjects, generic, world_subjects, world_list, box, ix, subclasses, isolated

RINGS = """
import math

def ringnums(n):
    size = math.pi/(n + 1)
    out = []
    for i in range(n):
        start = size*(i + 0.5) - math.pi/2
        stop = start + size
        dec = min(abs(start), abs(stop))
        out.append(math.floor(2*math.pi*math.cos(dec)/size) + 1)
    return out

def total(n):
    return sum(ringnums(n)) + 2

def decode(n, version, index):
    if index == 0:
        return -1, 0
    if index == total(n) - 1:
        return n, 0
    nums = ringnums(n)
    ring = 0
    k = index - 1
    if version == 0:
        while ring < n and k > nums[ring]:
            k -= nums[ring]
            ring += 1
    else:
        while ring < n and k >= nums[ring]:
            k -= nums[ring]
            ring += 1
    return ring, k

def ringof(n, dec):
    size = math.pi/(n + 1)
    first = size/2 - math.pi/2
    if dec < first:
        return -1
    if dec > -first:
        return n
    return math.floor((dec - first)/size)

def slot(n, start, ra, ring):
    m = ringnums(n)[ring]
    wrapped = (ra - start) % (2*math.pi)
    t = math.floor(wrapped/(2*math.pi/m) + 0.5)
    return 0 if t == m else t

def encode(n, version, ring, t):
    if version == 0 and t == 0 and ring != 0:
        ring += 1
    return sum(ringnums(n)[:ring]) + t + 1

def tractof(n, version, start, ra, dec):
    ring = ringof(n, dec)
    if ring == -1:
        return 0
    if ring == n:
        return total(n) - 1
    return encode(n, version, ring, slot(n, start, ra, ring))

def decrange(n, ring):
    size = math.pi/(n + 1)
    lo = -math.pi/2 + (ring + 0.5)*size
    if ring == -1:
        lo = -math.pi/2
    hi = -math.pi/2 + (ring + 1.5)*size
    if ring == n:
        hi = math.pi/2
    return lo, hi

def rarange(n, start, ring, t):
    if ring == -1 or ring == n:
        return 0.0, 2*math.pi
    m = ringnums(n)[ring]
    return ((start + (t - 0.5)*2*math.pi/m) % (2*math.pi),
            (start + (t + 0.5)*2*math.pi/m) % (2*math.pi))

def center(n, start, ring, t):
    if ring == -1:
        return 0.0, -math.pi/2
    if ring == n:
        return 0.0, math.pi/2
    m = ringnums(n)[ring]
    return ((start + t*2*math.pi/m) % (2*math.pi), math.pi/(n + 1)*(ring + 1) - math.pi/2)

def radians(c):
    return (c.getLongitude().asRadians(), c.getLatitude().asRadians())

def angles(r):
    a, b, c, d = r
    return a.asRadians(), b.asRadians(), c.asRadians(), d.asRadians()
"""


class Rings:
    """The documented layout of a rings sky map, next to the map."""

    def __init__(self, ck, w):
        self.ck, self.I, self.w = ck, ck.I, w
        if not hasattr(ck, "rings_env"):
            ck.rings_env = ck.I.spec(RINGS, "rings")
        self.e = ck.rings_env
        f = self.I.obj(w.config).fields
        self.n = f["numRings"]
        self.start = mul(f["raStart"], div(terms.PI, num(180)))
        self.v = num(w.version)
        try:
            # the circumference of every ring is positive
            fact(sub(self.len(), num(2)), 1)
        except AssertionError:
            pass

    def run(self, name, *args):
        r = self.I.run(self.e[name], list(args))
        return r.value

    def len(self):
        return self.run("total", self.n)


def rings(ck, versions=(1,), builders=("legacy",), overrides=None):
    for w in world_list(ck, ("rings",), builders, overrides, versions):
        sp = Rings(ck, w)
        # again, now that the number of tracts is known to be positive
        w = World(ck.I, "rings", w.builder, w.version, config=w.config)
        sp.w = w
        yield w, sp


def members(ck, w, sp):
    """The caps and an arbitrary tract in between."""
    L = sp.len()
    k = sym("k.%s" % w.version, "int")
    fact(k, 1, sub(L, num(2)))
    yield "south cap", ZERO, (neg(ONE), ZERO)
    yield "north cap", sub(L, ONE), (sp.n, ZERO)
    d = sp.run("decode", sp.n, sp.v, k)
    yield "between the caps", k, sp.I.unpack(d, 2, [False])


def outside(w, L):
    """Tract numbers below and above the map."""
    t = "%s%s" % (w.kind[:2], w.version)
    lo, hi = sym("neg." + t, "int"), sym("big." + t, "int")
    fact(lo, None, -1)
    fact(hi, L)
    yield "negative", lo
    yield "at or beyond the number of tracts", hi


# ------------------------------------------------------------------ C11
def c11(ck):
    for w, sp in rings(ck, (1, 0)):
        ck.guard("C11", w.name(), c11_one, ck, w, sp)


def c11_one(ck, w, sp):
    I = ck.I
    W = lambda n, what: "%s [%s, %s]" % (ck.where(w.cls, n), w.name(), what)
    L = sp.len()
    for label, k, (ring, t) in members(ck, w, sp):
        r = I.method(w.map, "getRingIndices", k)
        c = W("getRingIndices", label)
        ck.no_raise("a tract number of the map is accepted", c, r)
        a, b = I.unpack(r.value, 2, [False])
        ck.eq("ring of a tract number", c, a, ring, r.guard)
        ck.eq("position in the ring of a tract number", c, b, t, r.guard)
    for label, k in outside(w, L):
        for m, r in (("getRingIndices", I.method(w.map, "getRingIndices", k)), ("__getitem__", isolated(I, getitem, I, w.map, k)),
                     ("getRaDecRange", I.method(w.map, "getRaDecRange", k))):
            ck.eq("a tract number outside the map is refused", W(m, label), r.raised("IndexError"), TRUE)
    lookup(ck, w, sp, "the lookup numbers ring by ring, south to north, eastward from raStart")


def lookup(ck, w, sp, rule):
    I = ck.I
    c = coord("c.rings%s" % w.version)
    ra, dec = I.unpack(sp.run("radians", c), 2, [False])
    want = sp.run("tractof", sp.n, sp.v, sp.start, ra, dec)
    r = isolated(I, I.method, w.map, "findTract", c)
    W = "%s [%s]" % (ck.where(w.cls, "findTract"), w.name())
    L = sp.len()
    # what the formulas imply: the ring is one of the map, the position one
    # of the ring
    ring = sp.run("ringof", sp.n, dec)
    inside = and_(lift(le, ZERO, want), lift(lt, want, L), lift(le, neg(ONE), ring), lift(le, ring, sp.n))
    got = I.method(r.value, "getId")
    ck.eq(rule, W, got.value, want, and_(inside, r.guard))
    ck.no_raise("the lookup accepts every coordinate", W, r, inside)
    return c, want, inside


# ------------------------------------------------------------------ C12
def c12(ck):
    for w, sp in rings(ck, (1, 0), worlds.BUILDERS if ck.tier != "quick" else ("legacy",)):
        ck.guard("C12", w.name(), c12_one, ck, w, sp)


def c12_one(ck, w, sp):
    I = ck.I
    W = lambda n, what: "%s [%s, %s]" % (ck.where(w.cls, n), w.name(), what)
    for label, k, (ring, t) in members(ck, w, sp):
        r = I.method(w.map, "getRaDecRange", k)
        c = W("getRaDecRange", label)
        ck.no_raise("a tract number of the map is accepted", c, r)
        got = I.unpack(I.run(sp.e["angles"], [r.value]).value, 4, [False])
        lo, hi = I.unpack(sp.run("decrange", sp.n, ring), 2, [False])
        r0, r1 = I.unpack(sp.run("rarange", sp.n, sp.start, ring, t), 2, [False])
        for what, a, b in (("first RA", got[0], r0), ("last RA", got[1], r1), ("first Dec", got[2], lo),
                           ("last Dec", got[3], hi)):
            ck.eq("%s of the inner range" % what, c, a, b, r.guard)
        tr = isolated(I, getitem, I, w.map, k)
        c = W("generateTract", label)
        ck.no_raise("a tract number of the map is accepted", c, tr)
        if tr.guard is FALSE:
            continue
        ctr = I.method(tr.value, "getCtrCoord").value
        a, b = I.unpack(sp.run("radians", ctr), 2, [False])
        cr, cd = I.unpack(sp.run("center", sp.n, sp.start, ring, t), 2, [False])
        ck.eq("RA of the tract center is the middle of its range", c, a, cr, tr.guard)
        ck.eq("Dec of the tract center is the middle of its range", c, b, cd, tr.guard)
        reg = I.attr(tr.value, "inner_sky_region")
        c = "%s [%s, %s]" % (ck.where(I.obj(tr.value).cls, "inner_sky_region"), w.name(), label)
        want = innerbox(ck, sp, r0, r1, lo, hi)
        ck.eq("inner sky region is the box of the inner range", c, I.freeze(reg.value), I.freeze(want),
              and_(tr.guard, reg.guard))
    if w.version == 1:
        lookup(ck, w, sp, "the lookup switches tract at the boundaries of the inner ranges")


INNER = """
import lsst.sphgeom as sphgeom

def innerbox(r0, r1, d0, d1):
    return sphgeom.Box(sphgeom.LonLat(lon=sphgeom.NormalizedAngle(r0), lat=sphgeom.Angle(d0)),
                       sphgeom.LonLat(lon=sphgeom.NormalizedAngle(r1), lat=sphgeom.Angle(d1)))
"""


def innerbox(ck, sp, *a):
    if not hasattr(ck, "inner_env"):
        ck.inner_env = ck.I.spec(INNER, "inner")
    return ck.I.run(ck.inner_env["innerbox"], list(a)).value


# ------------------------------------------------------------------ C13
def c13(ck):
    for w, sp in rings(ck, (1, 0), worlds.BUILDERS):
        ck.guard("C13", w.name(), c13_one, ck, w, sp)


def c13_one(ck, w, sp):
    I = ck.I
    W = lambda n: "%s [%s]" % (ck.where(w.cls, n), w.name())
    ck.eq("len is the sum of the tracts per ring plus two", W("__len__"), w.len(), sp.len())


# ------------------------------------------------------------------ C01
IDS = """
def ids(m):
    return [t.getId() for t in m]

def upto(n):
    return [i for i in range(n)]

def count(m):
    n = 0
    for t in m:
        n += 1
    return n
"""

HPX = """
import hpgeom

def npix(k):
    return hpgeom.nside_to_npixel(2**k)
"""


def sizes(ck, w):
    """The documented number of tracts."""
    I = ck.I
    f = I.obj(w.config).fields
    if w.kind == "dodeca":
        return num(12)
    if w.kind == "equat":
        return f["numTracts"]
    if w.kind == "discrete":
        return I.method(f["raList"], "__len__").value if False else I.seq_len(I.seqterm(f["radiusList"]))
    if w.kind == "rings":
        return Rings(ck, w).len()
    e = I.spec(HPX, "hpx")
    return I.run(e["npix"], [f["log2NSide"]]).value


def all_maps(ck, kinds=None, versions=(1,), builders=("legacy",)):
    """Every kind of map; with the builders given."""
    rest = [k for k in (kinds or worlds.MAPS) if k != "rings"]
    for w in world_list(ck, rest, builders) if rest else ():
        yield w
    if kinds is None or "rings" in kinds:
        for w, sp in rings(ck, versions, builders):
            yield w


def c01(ck):
    for w in all_maps(ck, versions=(1, 0), builders=worlds.BUILDERS if ck.tier != "quick" else ("legacy",)):
        ck.guard("C01", w.name(), c01_one, ck, w)


def c01_one(ck, w):
    I = ck.I
    e = I.spec(IDS, "ids")
    W = lambda n, what="": "%s [%s%s]" % (ck.where(w.cls, n), w.name(), ", " + what if what else "")
    n = sizes(ck, w)
    ck.eq("number of tracts", W("__len__"), w.len(), n)
    if n.op != "num":
        return ck.undecided("number of tracts", W("__len__"), "not a number")
    i = index_in("i.c01" + w.kind + str(w.version), n)
    r = isolated(I, getitem, I, w.map, i)
    c = W("__getitem__", "0 <= i < len")
    ck.no_raise("an index in range is accepted", c, r)
    if r.guard is not FALSE:
        ck.eq("map[i] has id i", c, I.method(r.value, "getId").value, i, r.guard)
    for label, k in outside(w, n):
        if label == "negative" and w.kind not in CACHING:
            continue
        r = isolated(I, getitem, I, w.map, k)
        ck.eq("an index outside the map raises IndexError", W("__getitem__", label), r.raised("IndexError"), TRUE)
    r = isolated(I, I.run, e["ids"], [w.map])
    c = W("__iter__")
    ck.no_raise("iteration does not raise", c, r)
    if r.guard is not FALSE:
        ck.eq("iteration visits ids 0, 1, ..., len-1", c, I.freeze(r.value),
              I.freeze(I.run(e["upto"], [n]).value), r.guard)
        ck.eq("iteration visits len tracts", c, isolated(I, I.run, e["count"], [w.map]).value, n, r.guard)


# ------------------------------------------------------------------ C09
NEAREST = """
def findTract(m, coord):
    best = []
    for t in m:
        best.append((coord.separation(t.getCtrCoord()).asRadians(), t.getId(), t))
    return min(best)[2]
"""


def c09(ck):
    base = ck.I.cls("BaseSkyMap")
    f = base.lookup("findTract")[0]
    for w in all_maps(ck, builders=worlds.BUILDERS):
        if w.cls.lookup("findTract")[0] is not f and w.kind not in ("equat", "discrete"):
            continue
        ck.guard("C09", w.name(), c09_one, ck, w)


def c09_one(ck, w):
    I = ck.I
    e = I.spec(NEAREST, "nearest")
    c = coord("c09." + w.kind)
    W = "%s [%s]" % (ck.where(w.cls, "findTract"), w.name())
    r = isolated(I, I.method, w.map, "findTract", c)
    s = isolated(I, I.run, e["findTract"], [w.map, c])
    n = w.len()
    care = lift(lambda k: lt(ZERO, k), n)
    ck.no_raise("a non-empty map always has a nearest tract", W, r, care)
    g = and_(care, r.guard)
    ck.eq("the tract with the nearest center, of equally near ones the first", W,
          I.method(r.value, "getId").value, I.method(s.value, "getId").value, g)
    ck.eq("the tract with the nearest center, of equally near ones the first", W + " deep",
          I.deep(r.value), I.deep(s.value), g)


# ------------------------------------------------------------------ C10
ARRAY = """
import lsst.geom as geom

def scalar(m, ra, dec, degrees):
    units = geom.degrees if degrees else geom.radians
    return m.findTract(geom.SpherePoint(ra*units, dec*units)).getId()

def every(m, ras, decs, degrees):
    units = geom.degrees if degrees else geom.radians
    return [m.findTract(geom.SpherePoint(r*units, d*units)).getId() for r, d in zip(ras, decs)]

def aslist(a):
    return [x for x in a]
"""


def realseq(I, name, n):
    """A list of n arbitrary numbers."""
    return I.newlist(mk("symseq", mk("x", "seq", "config", terms.const(name)), "real", n))


def c10(ck):
    for w in all_maps(ck, versions=(1, 0)):
        ck.guard("C10", w.name(), c10_one, ck, w)


def c10_one(ck, w):
    I = ck.I
    e = I.spec(ARRAY, "array")
    n = sym("n.c10", "int")
    fact(n, 0)
    ras, decs = realseq(I, "ra.c10", n), realseq(I, "dec.c10", n)
    r0, d0 = sym("ra.c10", "real"), sym("dec.c10", "real")
    i = index_in("i.c10", n)
    sp = Rings(ck, w) if w.kind == "rings" else None
    f, owner = w.cls.lookup("findTractIdArray")
    if owner is I.cls("BaseSkyMap"):
        # works on whatever findTract returns
        I.obj(w.map).fields["findTract"] = mk("ext", "stub.findTract")
        sp = None
    some = lt(ZERO, w.len())
    for unit, kw in (("radians", {}), ("degrees", {"degrees": terms.TRUE})):
        deg = terms.boolc(unit == "degrees")
        for what, ra, dec, r_, d_, k, cnt in (
                ("lists", ras, decs, I.seq_elem(I.seqterm(ras), i), I.seq_elem(I.seqterm(decs), i), i, n),
                ("scalars", r0, d0, r0, d0, ZERO, ONE)):
            W = "%s [%s, %s, %s]" % (ck.where(w.cls, "findTractIdArray"), w.name(), what, unit)
            a = isolated(I, I.method, w.map, "findTractIdArray", ra, dec, **kw)
            b = isolated(I, I.run, e["scalar"], [w.map, r_, d_, deg])
            care = some
            if sp is not None:
                f = lambda v: mul(v, div(terms.PI, num(180))) if unit == "degrees" else v
                want = sp.run("tractof", sp.n, sp.v, sp.start, f(r_), f(d_))
                ring = sp.run("ringof", sp.n, f(d_))
                care = and_(lift(le, ZERO, want), lift(lt, want, w.len()), lift(le, neg(ONE), ring),
                            lift(le, ring, sp.n))
            ck.no_raise("array lookup does not raise", W, a, care)
            v = I.run(e["aslist"], [a.value]).value
            st = I.seqterm(v)
            if st is None:
                ck.undecided("array lookup is the scalar lookup of every element", W, "result is not a sequence")
                continue
            ck.eq("one id for every element", W, I.seq_len(st), cnt)
            if sp is None and what == "lists":
                b = isolated(I, I.run, e["every"], [w.map, ra, dec, deg])
                ck.eq("array lookup is the scalar lookup of every element", W, I.freeze(v), I.freeze(b.value),
                      and_(care, b.guard))
                continue
            ck.eq("array lookup is the scalar lookup of every element", W, I.seq_elem(st, k), b.value,
                  and_(care, b.guard))


# ------------------------------------------------------------------ C14
STUB = """
import stub

class Map:
    def __getitem__(self, index):
        return stub.tract(index)
    def __iter__(self):
        for i in range(len(self)):
            yield stub.tract(i)

def lookup(coord):
    return stub.tract(stub.lookup(coord))

def around(coord):
    return [stub.tract(i) for i in stub.around(coord)]

def everywhere(n, coords):
    out = []
    for i in range(n):
        t = stub.tract(i)
        p = t.findPatchList(coords)
        if p:
            out.append((t, p))
    return out

def closest(coords):
    out = []
    for c in coords:
        t = stub.tract(stub.lookup(c))
        p = t.findPatchList(coords)
        if p and (t, p) not in out:
            out.append((t, p))
    return out

def touched(coords):
    out = []
    for c in coords:
        for i in stub.around(c):
            t = stub.tract(i)
            p = t.findPatchList(coords)
            if p and (t, p) not in out:
                out.append((t, p))
    return out
"""

AROUND = RINGS + """
import stub

def around(n, version, start, ra, dec, coord):
    ring = ringof(n, dec)
    out = []
    for r in [ring - 1, ring, ring + 1]:
        if r < 0 or r >= n:
            continue
        m = ringnums(n)[r]
        t0 = slot(n, start, ra, r)
        for t in [t0 - 1, t0, t0 + 1]:
            if t < 0:
                t = t + m
            elif t > m - 1:
                t = t - m
            i = encode(n, version, r, t)
            if stub.tract(i).contains(coord):
                out.append(stub.tract(i))
    for i in [0, total(n) - 1]:
        if stub.tract(i).contains(coord):
            out.append(stub.tract(i))
    return out
"""


def stubbed(ck, w):
    """The map with arbitrary tracts in place of its own."""
    I = ck.I
    if not hasattr(ck, "stub_env"):
        ck.stub_env = I.spec(STUB, "stubs")
    e = ck.stub_env
    m = e["Map"].args[0]
    for k in ("__getitem__", "__iter__"):
        w.cls.attrs[k] = m.attrs[k]
    return e


def c14(ck):
    for w in all_maps(ck, versions=(1, 0)):
        ck.guard("C14", w.name(), c14_one, ck, w)


def c14_one(ck, w):
    I = ck.I
    old = dict(w.cls.attrs)
    e = stubbed(ck, w)
    try:
        n = sym("n.c14", "int")
        fact(n, 0)
        coords = I.newlist(mk("symseq", mk("x", "seq", "config", terms.const("coords.c14")), "sp", n))
        W = lambda n: "%s [%s]" % (ck.where(w.cls, n), w.name())

        def same(rule, name, spec, *args):
            r = isolated(I, I.method, w.map, name, coords)
            ck.no_raise("region search does not raise", W(name), r)
            want = I.run(e[spec], list(args) + [coords])
            ck.eq(rule, W(name), I.freeze(r.value), I.freeze(want.value), r.guard)
        f = I.obj(w.map).fields
        if w.kind == "rings":
            sp = Rings(ck, w)
            c14_around(ck, w, sp, W)
            f["findAllTracts"] = e["around"]
            same("every tract found around a coordinate, once, with its patches", "findTractPatchList", "touched")
        else:
            same("every tract that has patches, with them", "findTractPatchList", "everywhere", w.len())
        f["findTract"] = e["lookup"]
        same("the tract nearest to each coordinate, once, with its patches", "findClosestTractPatchList", "closest")
    finally:
        w.cls.attrs.clear()
        w.cls.attrs.update(old)


def c14_around(ck, w, sp, W):
    I = ck.I
    c = coord("c.c14%s" % w.version)
    env = I.spec(AROUND, "around")
    ra, dec = I.unpack(sp.run("radians", c), 2, [False])
    want = I.run(env["around"], [sp.n, sp.v, sp.start, ra, dec, c])
    r = isolated(I, I.method, w.map, "findAllTracts", c)
    ring = sp.run("ringof", sp.n, dec)
    care = and_(lift(le, neg(ONE), ring), lift(le, ring, sp.n))
    ck.no_raise("the search accepts every coordinate", W("findAllTracts"), r, care)
    a, b = I.freeze(r.value), I.freeze(want.value)
    ck.eq("the tracts around a coordinate that contain it", W("findAllTracts"), a, b, and_(care, r.guard))


# ------------------------------------------------------------------ C34
FACES = """
import numpy
from lsst.geom import Angle, SpherePoint
from lsst.sphgeom import Vector3d
from lsst.skymap.detail import coordFromVec, Dodecahedron

def center(d, i):
    return coordFromVec(d.getFaceCtr(i), defRA=Angle(0))

def corners(d, i):
    ra = coordFromVec(d.getFaceCtr(i), defRA=Angle(0)).getLongitude()
    return [coordFromVec(v, defRA=ra) for v in d.getVertices(i)]

def nearest(d, coord):
    v = coord.getVector()
    return max(range(len(d.getFaceCtrList())), key=lambda i: numpy.dot(d.getFaceCtr(i), v))

def make(poles):
    return Dodecahedron(withFacesOnPoles=poles)
"""


def uncopied(t):
    """A numeric array and its copies are the same value."""
    for _ in range(9):
        m = {u: u.args[2] for u in terms.all_atoms(t) if u.op == "x" and u.args[1] == "method.copy" and len(u.args) == 3}
        if not m:
            break
        t = terms.subst(t, m)
    return t


def c34(ck):
    for w in all_maps(ck, ["dodeca"], builders=worlds.BUILDERS):
        ck.guard("C34", w.name(), c34_one, ck, w)


def c34_one(ck, w):
    I = ck.I
    W = lambda n: "%s [%s]" % (ck.where(w.cls, n), w.name())
    e = I.spec(FACES, "faces")
    poles = I.obj(w.config).fields["withTractsOnPoles"]
    # any one dodecahedron, of the configured orientation
    d = I.run(e["make"], [poles]).value
    ck.eq("a dodecahedral map has 12 tracts", W("__len__"), w.len(), num(12))
    i = index_in("i.c34", num(12))
    r = isolated(I, getitem, I, w.map, i)
    ck.no_raise("every face has a tract", W("__getitem__"), r)
    fz = lambda v: uncopied(I.deep(v))
    ck.eq("tract i is centered on face i", W("__init__"), fz(I.method(r.value, "getCtrCoord").value),
          fz(I.run(e["center"], [d, i]).value), r.guard, within=())
    ck.eq("tract i has the vertices of face i", W("__init__"), fz(I.method(r.value, "getVertexList").value),
          fz(I.run(e["corners"], [d, i]).value), r.guard, within=())
    # looking into getVertices: whichever face vectors it uses are those of face i
    o = I.is_opaque
    try:
        I.is_opaque = lambda fv: False if fv.node.name == "getVertices" else o(fv)
        v = isolated(I, lambda: uncopied(I.deep(I.method(d, "getVertices", i).value)))
    finally:
        I.is_opaque = o
    f = uncopied(I.deep(I.method(d, "getFaceCtr", i).value))
    if f.op == "x" and f.args[1] == "item":
        used = [u for u in terms.all_atoms(v) if u.op == "x" and u.args[1] == "item" and u.args[2] is f.args[2]]
        for u in sorted(used, key=lambda u: u.uid):
            ck.eq("the vertices of a face are taken from around that face", ck.where(I.obj(d).cls, "getVertices"),
                  u.args[3], f.args[3])
    c34_frames(ck, w, d, f, v, poles)
    c = coord("c.c34")
    r = isolated(I, I.method, w.map, "findTract", c)
    want = uncopied(I.run(e["nearest"], [d, c]).value)
    care = and_(r.guard, and_(lift(le, ZERO, want), lift(lt, want, num(12))))
    for u in terms.all_atoms(want):
        if u.op == "len" and want.op == "num":
            terms.FACTS[u] = (num(12), num(12))     # it ranges over the faces
            terms.clear_caches()
    ck.eq("the lookup returns the tract of the nearest face", W("findTract"),
          uncopied(I.method(r.value, "getId").value), want, care, within=("argmin", "argmax"))
    r = I.method(w.map, "getWithTractsOnPoles")
    ck.eq("reports the configured orientation", W("getWithTractsOnPoles"), r.value, poles)


def c34_frames(ck, w, d, f, v, poles):
    """Centers and vertices are of one dodecahedron: the vectors of the faces
    and those of the vertices, turned by one rotation, which puts a face on
    the pole if so configured, otherwise a vertex."""
    I = ck.I
    W = lambda n: "%s [%s]" % (ck.where(I.obj(d).cls, n), w.name())
    env = I.obj(d).cls.module.env
    for on, label, want in ((poles, "faces on the poles", frames.FACE), (not_(poles), "vertices on the poles",
                                                                        frames.VERTEX)):
        fr = frames.Frames(lambda n: [a.arg for a in env[n].args[0].node.args.args], on)
        try:
            k = fr.of(f)
            u = [fr.of(fr.arg(c, 0)) for c in terms.all_atoms(v)
                 if fr.call(c) == "_findCloseList" and k and fr.of(fr.arg(c, 1)) == k]
        except (KeyError, IndexError, ValueError, AttributeError):
            k, u = None, []
        n = "centers are those of the faces, turned once"
        at = "%s, %s" % (W("__init__"), label)
        if k is None:
            ck.undecided(n, at, "the vectors of the faces are made in another way")
        else:
            ck.ok(n, at, k[0] == frames.FACE and len(k[1]) == 1,
                  "the centers are %s vectors turned %d times" % (k[0], len(k[1])))
        n = "oriented as configured"
        p = fr.pole(k[1][0]) if k and len(k[1]) == 1 else None
        if p is None or p[1]:
            ck.undecided(n, at, "the rotation is made in another way")
        else:
            ck.ok(n, at, p[0] == want, "a %s is on the pole, not a %s" % (p[0], want))
        n = "vertices are those of the same dodecahedron"
        at = "%s, %s" % (W("getVertices"), label)
        if k is None or not u or any(x is None for x in u):
            ck.undecided(n, at, "the vertices are found in another way")
            continue
        for x in u:
            if x[0] == frames.VERTEX and len(x[1]) == len(k[1]) and x[1] != k[1] and \
                    [fr.pole(m) for m in x[1]] == [fr.pole(m) for m in k[1]]:
                ck.undecided(n, at, "two rotations")
            else:
                ck.ok(n, at, x[0] == frames.VERTEX and x[1] == k[1], "%s vectors turned by %s rotation are used "
                      "with centers turned by %s" % (x[0], "no" if not x[1] else "another" if x[1] != k[1] else "the",
                                                     "one" if k[1] else "none"))


# ------------------------------------------------------------------ C23
TRACTS = RINGS + """
import lsst.geom as geom
import lsst.afw.geom as afwGeom
import lsst.sphgeom as sphgeom
from lsst.skymap.tractInfo import TractInfo, ExplicitTractInfo
from lsst.skymap.detail import coordFromVec, Dodecahedron

def wcs(conf, crval):
    cd = afwGeom.makeCdMatrix(scale=conf.pixelScale*geom.arcseconds, orientation=conf.rotation*geom.degrees,
                              flipX=False)
    return afwGeom.makeSkyWcs(crpix=geom.Point2D(0, 0), crval=crval, cdMatrix=cd, projection=conf.projection)

def builder(conf):
    return conf.tractBuilder.apply()

def overlap(conf):
    return conf.tractOverlap*geom.degrees

def discrete(conf, i):
    ctr = geom.SpherePoint(conf.raList[i], conf.decList[i], geom.degrees)
    return ExplicitTractInfo(i, builder(conf), ctr, conf.radiusList[i]*geom.degrees, overlap(conf), wcs(conf, ctr))

def equat(conf, i):
    width = 360.0/conf.numTracts
    lo, hi = conf.decRange
    sp = lambda r, d: geom.SpherePoint(r, d, geom.degrees)
    vertices = [sp(i*width, lo), sp((i + 1)*width, lo), sp((i + 1)*width, hi), sp(i*width, hi)]
    mid = (i + 0.5)*width
    return TractInfo(i, builder(conf), sp(mid, (lo + hi)/2), vertices, overlap(conf), wcs(conf, sp(mid, 0.0)))

def dodeca(conf, i):
    d = Dodecahedron(withFacesOnPoles=conf.withTractsOnPoles)
    ctr = coordFromVec(d.getFaceCtr(i), defRA=geom.Angle(0))
    vertices = [coordFromVec(v, defRA=ctr.getLongitude()) for v in d.getVertices(i)]
    return TractInfo(i, builder(conf), ctr, vertices, overlap(conf), wcs(conf, ctr))

def healpix(conf, i):
    import hpgeom
    from lsst.skymap.healpixSkyMap import angToCoord
    n = 2**conf.log2NSide
    ctr = angToCoord(hpgeom.pixel_to_angle(n, i, nest=conf.nest, lonlat=False))
    theta, phi = hpgeom.boundaries(n, i, nest=conf.nest, lonlat=False)
    vertices = [angToCoord(p) for p in zip(theta, phi)]
    return TractInfo(i, builder(conf), ctr, vertices, overlap(conf), wcs(conf, ctr))

def rings(conf, i, version):
    n = conf.numRings
    start = conf.raStart*math.pi/180
    ring, t = decode(n, version, i)
    ra, dec = center(n, start, ring, t)
    ctr = geom.SpherePoint(ra, dec, geom.radians)
    lo, hi = decrange(n, ring)
    beg, end = rarange(n, start, ring, t)
    corners = [sphgeom.LonLat(lon=sphgeom.NormalizedAngle(beg), lat=sphgeom.Angle(lo)),
               sphgeom.LonLat(lon=sphgeom.NormalizedAngle(end), lat=sphgeom.Angle(hi))]
    return ExplicitTractInfo(i, builder(conf), ctr, math.pi/(n + 1)/2*geom.radians, overlap(conf), wcs(conf, ctr),
                             corners)
"""

QUANTITIES = ("getId", "getCtrCoord", "getTractOverlap", "getVertexList", "getWcs", "getBBox", "getNumPatches",
              "getInnerSkyRegion", "getPatchBorder", "getPatchInnerDimensions")


def documented(ck, w, i):
    """The tract the documentation describes for index i."""
    I = ck.I
    if not hasattr(ck, "tracts_env"):
        ck.tracts_env = I.spec(TRACTS, "tracts")
    args = [w.config, i] + ([num(w.version)] if w.kind == "rings" else [])
    return I.run(ck.tracts_env[w.kind], args)


def c23(ck):
    I = ck.I
    for w in all_maps(ck, builders=worlds.BUILDERS, versions=(1, 0) if ck.tier != "quick" else (1,)):
        ck.guard("C23", w.name(), c23_one, ck, w)
    ck.guard("C23", "projection", c23_projection, ck)


RULES23 = {
    "getCtrCoord": "the center of the tract is the configured one",
    "getTractOverlap": "the overlap of the tract is the configured one, in degrees",
    "getWcs": "the WCS has the configured scale, rotation, projection and center",
}


def c23_one(ck, w, names=QUANTITIES):
    I = ck.I
    n = w.len()
    tag = w.kind + w.builder + str(w.version)
    if w.kind == "rings":
        regions = [(label, k) for label, k, _ in members(ck, w, Rings(ck, w))]
    else:
        regions = [("", index_in("i.c23" + tag, n))]
    for label, i in regions:
        r = isolated(I, getitem, I, w.map, i)
        d = documented(ck, w, i)
        if r.guard is FALSE or d.guard is FALSE:
            ck.undecided("tract", W23(ck, w, "__getitem__", label), "cannot build the tract")
            continue
        for q in names:
            a, b = isolated(I, I.method, r.value, q), isolated(I, I.method, d.value, q)
            g = and_(r.guard, d.guard)
            rule = RULES23.get(q, "the tract is the documented one: " + q)
            u, v = uncopied(I.deep(a.value)), uncopied(I.deep(b.value))
            f, owner = w.cls.lookup("generateTract")
            at = W23(ck, w, "generateTract" if f is not None and w.kind in CACHING else "__init__", label)
            ck.eq(rule, at, u, v, g, within=None if w.kind != "dodeca" else ())


def W23(ck, w, n, what=""):
    return "%s [%s%s]" % (ck.where(w.cls, n), w.name(), ", " + what if what else "")


def c23_projection(ck):
    """A projection code that does not have three letters is refused."""
    I = ck.I
    for kind in worlds.MAPS:
        s = mk("x", "str", "config", terms.const("odd.projection." + kind))
        ln = terms.atom(mk("len", s))
        fact(ln, 0)
        cls = I.cls(worlds.MAPS[kind])
        over = worlds.usual("p" + kind[:2] + ".")
        over["p" + kind[:2] + ".projection"] = lambda I: s
        try:
            from worlds import sym_config, py
            conf = sym_config(I, I.getattr(py(cls), "ConfigClass", None).args[0], "p" + kind[:2] + ".", "legacy", over)
            r = I.run(py(cls), [conf])
        except Exception as e:
            ck.undecided("projection", ck.where(cls), str(e)[:100])
            continue
        bad = not_(terms.eq0(sub(ln, num(3))))
        ck.eq("a projection code of another length than 3 is refused", ck.where(cls, "__init__"),
              r.raised(), TRUE, bad)
        ck.eq("a projection code of length 3 is accepted", ck.where(cls, "__init__"),
              r.raised("RuntimeError"), FALSE, not_(bad))


# ------------------------------------------------------------ C32 and C33
HEALPIX = """
import hpgeom
from lsst.skymap.healpixSkyMap import angToCoord, coordToAng

def count(conf):
    n = 2**conf.log2NSide
    return 12*n*n

def pixel(conf, coord):
    theta, phi = coordToAng(coord)
    return hpgeom.angle_to_pixel(2**conf.log2NSide, theta, phi, nest=conf.nest, lonlat=False)

def lonlat(coord):
    return coord.getLongitude().asRadians(), coord.getLatitude().asRadians()

def there(coord):
    return lonlat(angToCoord(coordToAng(coord)))

def back(theta, phi):
    theta, phi = coordToAng(angToCoord((theta, phi)))
    return theta, phi
"""


def c32(ck):
    for w in all_maps(ck, ["healpix"], builders=worlds.BUILDERS):
        ck.guard("C32", w.name(), c32_one, ck, w)


def c32_one(ck, w):
    I = ck.I
    e = I.spec(HEALPIX, "healpix")
    ck.eq("one tract for every pixel", W23(ck, w, "__len__"), w.len(), I.run(e["count"], [w.config]).value)
    c23_one(ck, w, ("getId", "getCtrCoord", "getVertexList"))
    c = coord("c.c32")
    r = isolated(I, I.method, w.map, "findTract", c)
    s = I.run(e["pixel"], [w.config, c])
    ck.no_raise("the lookup accepts every coordinate", W23(ck, w, "findTract"), r)
    ck.eq("the lookup returns the tract of the pixel that contains the coordinate", W23(ck, w, "findTract"),
          I.method(r.value, "getId").value, s.value, r.guard)
    at = "%s: angToCoord, coordToAng" % w.cls.module.relpath
    ck.eq("the coordinate conversions are inverse", at, I.freeze(I.run(e["there"], [c]).value),
          I.freeze(I.run(e["lonlat"], [c]).value))
    th, ph = sym("theta.c32", "real"), sym("phi.c32", "real")
    fact(th, 0, terms.PI)
    fact(ph, 0, 6)
    for got, want in zip(I.unpack(I.run(e["back"], [th, ph]).value, 2, [False]), (th, ph)):
        ck.eq("the coordinate conversions are inverse", at, got, want)


def c33(ck):
    for w in all_maps(ck, ["equat"], builders=worlds.BUILDERS):
        ck.guard("C33", w.name(), c33_one, ck, w)


EQUAT = """
import lsst.geom as geom

def count(conf):
    return conf.numTracts

def corners(t):
    return [(v.getLongitude().asDegrees(), v.getLatitude().asDegrees()) for v in t.getVertexList()]

def want(conf, i):
    w = 360.0/conf.numTracts
    a, b = conf.decRange
    return [((i*w) % 360, a), (((i + 1)*w) % 360, a), (((i + 1)*w) % 360, b), ((i*w) % 360, b)]

def middle(conf, i):
    a, b = conf.decRange
    return geom.SpherePoint((i + 0.5)*360.0/conf.numTracts, (a + b)/2, geom.degrees)
"""


def c33_one(ck, w):
    I = ck.I
    e = I.spec(EQUAT, "equat")
    ck.eq("as many tracts as configured", W23(ck, w, "__len__"), w.len(), I.run(e["count"], [w.config]).value)
    n = w.len()
    i = index_in("i.c33" + w.builder, n)
    at = W23(ck, w, "__init__")
    r = isolated(I, getitem, I, w.map, i)
    ck.no_raise("every index has a tract", W23(ck, w, "__getitem__"), r)
    cs = lambda t: I.freeze(I.run(e["corners"], [t]).value)
    ck.eq("tract i spans RA [i, i+1] x 360/n and the configured Dec range", at, cs(r.value),
          I.freeze(I.run(e["want"], [w.config, i]).value), r.guard)
    ck.eq("the center is in the middle of the tract", at, I.freeze(I.method(r.value, "getCtrCoord").value),
          I.freeze(I.run(e["middle"], [w.config, i]).value), r.guard)
    # neighbours meet, and the last meets the first
    j = index_in("j.c33" + w.builder, sub(n, ONE))
    for label, a, b in (("next tract", j, add(j, ONE)), ("last and first", sub(n, ONE), ZERO)):
        ra, rb = isolated(I, getitem, I, w.map, a), isolated(I, getitem, I, w.map, b)
        A, B = I.unpack(cs(ra.value), 4, [False]), I.unpack(cs(rb.value), 4, [False])
        g = and_(ra.guard, rb.guard)
        ck.eq("a tract ends where the next begins", "%s %s" % (at, label), A[1], B[0], g)
        ck.eq("a tract ends where the next begins", "%s %s" % (at, label), A[2], B[3], g)
