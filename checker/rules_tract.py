"""Rules about tracts, patches and cells (C15-C22, C24, C31)."""
import terms
from terms import (mk, num, add, sub, mul, neg, ONE, ZERO, TRUE, FALSE, sym, fact, restrict, and_, or_, not_, lt, le,
                   min_, max_, ceil_, div, floor_, lift, lift_num)
from interp import exc_name
from worlds import getitem, index_in
from subjects import Subject, subjects, generic, world_subjects, box, ix, subclasses


def forms(ck, s, owner, getter, x, y, nx):
    """The object at (x, y), looked up in every documented way."""
    I = ck.I
    q = lift_num(lambda n: add(mul(n, y), x), nx)
    pair = mk("tup", "", x, y)
    for label, k in (("Index2D", ix(x, y)), ("pair", pair), ("sequential", q)):
        yield label, I.method(owner, getter, k), getter
        yield label + " []", getitem(I, owner, k), "__getitem__"


MINBOX = """
import lsst.geom as geom

def circle(wcs, vertices, overlap):
    box = geom.Box2D()
    for v in vertices:
        for i in range(24):
            box.include(wcs.skyToPixel(v.offset(geom.Angle(15.0*i, geom.degrees), overlap/2)))
    return geom.Box2I(box)

def points(wcs, vertices, overlap):
    box = geom.Box2D()
    for v in vertices:
        box.include(wcs.skyToPixel(v))
    return geom.Box2I(box)

def cardinal(wcs, center, radius, overlap):
    box = geom.Box2D()
    for i in range(4):
        box.include(wcs.skyToPixel(center.offset(geom.Angle(90.0*i, geom.degrees), radius + overlap)))
    return geom.Box2I(box)

def ends(box):
    return (box.getBeginX(), box.getBeginY(), box.getEndX(), box.getEndY())
"""


def minimal_box(ck, s):
    """Ends of the smallest pixel box the tract has to cover (generic tracts)."""
    I = ck.I
    if not hasattr(ck, "minbox_env"):
        ck.minbox_env = I.spec(MINBOX, "minbox")
    e, t = ck.minbox_env, s.src
    if hasattr(t, "radius"):
        b = I.run(e["cardinal"], [t.wcs, t.ctr, t.radius, t.overlap])
    else:
        b = I.run(e["points" if t.zero else "circle"], [t.wcs, t.vertices, t.overlap])
    return I.unpack(I.run(e["ends"], [b.value]).value, 4, [False])


# ------------------------------------------------------------------ C15
def c15(ck):
    for s in generic(ck, ("positive", "zero"), plain=False):
        ck.guard("C15", s.label, c15_count, ck, s)
    for s in subjects(ck):
        ck.guard("C15", s.label, c15_one, ck, s)


def c15_count(ck, s):
    x0, y0, x1, y1 = minimal_box(ck, s)
    c = "%s [%s]" % (s.where("getNumPatches"), s.label)
    ck.eq("number of patches is the smallest that covers the minimum box", c,
          mk("tup", "n", s.nx, s.ny),
          mk("tup", "n", lift_num(lambda a, b, d: ceil_(div(sub(b, a), d)), x0, x1, s.dx),
             lift_num(lambda a, b, d: ceil_(div(sub(b, a), d)), y0, y1, s.dy)))
    ck.holds("a tract has at least one patch", c, and_(lift(lambda n: lt(ZERO, n), s.nx),
                                                       lift(lambda n: lt(ZERO, n), s.ny)))


def c15_one(ck, s):
    I = ck.I
    w = s.where
    L = s.label
    ck.eq("tract box starts at (0,0) and is patches x inner size", w("getBBox") + " [" + L + "]",
          s.fz(s.get("getBBox").value), box(ZERO, ZERO, *s.size()))
    d = s.get("getPatchInnerDimensions")
    ck.eq("inner dimensions are as configured", w("getPatchInnerDimensions") + " [" + L + "]",
          mk("tup", "d", *I.unpack(d.value, 2, [False])), mk("tup", "d", s.dx, s.dy))
    x, y = s.indices()
    for label, r, how in forms(ck, s, s.tract, "getPatchInfo", x, y, s.nx):
        c = "%s [%s, %s]" % (w(how), L, label)
        ck.no_raise("a valid index is accepted", c, r, s.care)
        if r.guard is FALSE:
            continue
        care = and_(r.guard, s.care)
        b = I.method(r.value, "getInnerBBox")
        ck.eq("inner box of patch (x, y) is (x dx, y dy) + (dx, dy)", c, s.fz(b.value),
              box(mul(x, s.dx), mul(y, s.dy), mul(add(x, ONE), s.dx), mul(add(y, ONE), s.dy)), care)


# ------------------------------------------------------------------ C16
def c16(ck):
    for s in subjects(ck):
        ck.guard("C16", s.label, c16_one, ck, s)


def c16_one(ck, s):
    I = ck.I
    w, L = s.where, s.label
    ck.eq("reported patch border", w("getPatchBorder") + " [" + L + "]", s.get("getPatchBorder").value, s.border)
    x, y = s.indices()
    x0, y0 = mul(x, s.dx), mul(y, s.dy)
    x1, y1 = add(x0, s.dx), add(y0, s.dy)
    b = s.border
    if s.bkind == "legacy":
        W, H = s.size()
        want = box(max_(sub(x0, b), ZERO), max_(sub(y0, b), ZERO), lift_num(min_, add(x1, b), W),
                   lift_num(min_, add(y1, b), H))
    else:
        want = box(sub(x0, b), sub(y0, b), add(x1, b), add(y1, b))
    for label, r, how in forms(ck, s, s.tract, "getPatchInfo", x, y, s.nx):
        if r.guard is FALSE:
            continue
        c = "%s [%s, %s]" % (w(how), L, label)
        v = I.method(r.value, "getOuterBBox")
        ck.eq("outer box of patch (x, y)", c, s.fz(v.value), want, and_(r.guard, s.care))
        if s.bkind == "cells":
            ck.eq("reported cell border", c, I.method(r.value, "getCellBorder").value, s.cb, and_(r.guard, s.care))


# ------------------------------------------------------------------ C17
def a_patch(ck, s, owner=None):
    """The patch at an arbitrary valid index."""
    x, y = s.indices()
    r = s.get("getPatchInfo", ix(x, y))
    return x, y, r.value, and_(r.guard, s.care)


def cell_indices(ck, s):
    i = index_in("i." + s.tag + "c", s.ncx)
    j = index_in("j." + s.tag + "c", s.ncy)
    return i, j


def c17(ck):
    for s in subjects(ck):
        ck.guard("C17", s.label, c17_one, ck, s)


def c17_one(ck, s):
    I = ck.I
    x, y, p, g = a_patch(ck, s)
    pc = I.obj(p).cls
    w = lambda n: "%s [%s]" % (ck.where(pc, n), s.label)
    nc = I.method(p, "getNumCells")
    n = I.method(p, "__len__")
    if s.bkind == "legacy":
        ck.eq("no cells", w("getNumCells"), s.fz(nc.value), ix(ZERO, ZERO), g)
        ck.eq("no cells", w("__len__"), n.value, ZERO, g)
        i, j = sym("i." + s.tag, "int"), sym("j." + s.tag, "int")
        for how, k in (("Index2D", ix(i, j)), ("pair", mk("tup", "", i, j)), ("sequential", i)):
            for m, r in (("getCellInfo", I.method(p, "getCellInfo", k)), ("__getitem__", getitem(I, p, k))):
                ck.eq("every cell index is refused", w(m) + " [%s]" % how, r.raised("IndexError"), TRUE, g)
        return
    ck.eq("number of cells", w("getNumCells"), s.fz(nc.value), ix(s.ncx, s.ncy), g)
    ck.eq("number of cells", w("__len__"), n.value, mul(s.ncx, s.ncy), g)
    d = I.method(p, "getCellInnerDimensions")
    ck.eq("cell size", w("getCellInnerDimensions"), mk("tup", "d", *I.unpack(d.value, 2, [False])),
          mk("tup", "d", s.cx, s.cy), g)
    ck.eq("cell border", w("getCellBorder"), I.method(p, "getCellBorder").value, s.cb, g)
    i, j = cell_indices(ck, s)
    x0 = add(mul(x, s.dx), mul(sub(i, s.m), s.cx))
    y0 = add(mul(y, s.dy), mul(sub(j, s.m), s.cy))
    x1, y1 = add(x0, s.cx), add(y0, s.cy)
    b = s.cb
    for label, r, how in forms(ck, s, p, "getCellInfo", i, j, s.ncx):
        c = "%s [%s, %s]" % (ck.where(pc, how), s.label, label)
        ck.no_raise("a valid cell index is accepted", c, r, g)
        if r.guard is FALSE:
            continue
        h = and_(g, r.guard)
        ck.eq("inner box of cell (i, j)", c, s.fz(I.method(r.value, "getInnerBBox").value), box(x0, y0, x1, y1), h)
        ck.eq("outer box of cell (i, j)", c, s.fz(I.method(r.value, "getOuterBBox").value),
              box(sub(x0, b), sub(y0, b), add(x1, b), add(y1, b)), h)
    # the outer boxes of the first and the last cell span the patch
    v = I.method(p, "getOuterBBox")
    m = add(mul(s.m, s.cx), s.cb)
    ck.eq("outer boxes of the cells span the patch outer box", w("getOuterBBox"), s.fz(v.value),
          box(sub(mul(x, s.dx), m), sub(mul(y, s.dy), m), add(mul(add(x, ONE), s.dx), m),
              add(mul(add(y, ONE), s.dy), m)), g)


# ------------------------------------------------------------------ C18
ORDER = """
def indices(objs):
    return [o.getIndex() for o in objs]

def seqindices(objs):
    return [o.getSequentialIndex() for o in objs]

def grid(nx, ny):
    return [(x, y) for y in range(ny) for x in range(nx)]

def count(nx, ny):
    return [nx*y + x for y in range(ny) for x in range(nx)]
"""


def c18(ck):
    ck.order = ck.I.spec(ORDER, "order")
    for s in subjects(ck):
        ck.guard("C18", s.label, c18_grid, ck, s, s.tract, "getPatchInfo", s.nx, s.ny, TRUE,
                 ("getSequentialPatchIndex", "getSequentialPatchIndexFromPair", "getPatchIndexPair"), s.indices)
        if s.bkind == "cells":
            x, y, p, g = a_patch(ck, s)
            ck.guard("C18", s.label + " cells", c18_grid, ck, s, p, "getCellInfo", s.ncx, s.ncy, g,
                     ("getSequentialCellIndex", "getSequentialCellIndexFromPair", "getCellIndexPair"),
                     lambda: cell_indices(ck, s))


def untag(v):
    """Index tuples whatever their type."""
    return v


def c18_grid(ck, s, owner, getter, nx, ny, g, conv, idx):
    I = ck.I
    oc = I.obj(owner).cls
    w = lambda n, how="": "%s [%s%s]" % (ck.where(oc, n), s.label, ", " + how if how else "")
    x, y = idx()
    q = lift_num(lambda n: add(mul(n, y), x), nx)
    seen = []
    for label, r, how in forms(ck, s, owner, getter, x, y, nx):
        c = w(how, label)
        ck.no_raise("a valid index is accepted", c, r, g)
        if r.guard is FALSE:
            continue
        h = and_(g, r.guard)
        ck.eq("reports its index", c, s.fz(I.method(r.value, "getIndex").value), ix(x, y), h)
        ck.eq("reports its sequential index nx*y + x", c, I.method(r.value, "getSequentialIndex").value, q, h)
        k = I.method(owner, conv[0], r.value)
        ck.eq("sequential index of an object", w(conv[0], label), k.value, q, h)
        seen.append((label, c, h, I.deep(r.value)))
    for label, c, h, v in seen[1:]:
        ck.eq("the same object by every form of index", c, v, seen[0][3], and_(h, seen[0][2]))
    for how, k in (("Index2D", ix(x, y)), ("pair", mk("tup", "", x, y))):
        r = I.method(owner, conv[1], k)
        ck.no_raise("a valid index is accepted", w(conv[1], how), r, g)
        ck.eq("sequential index is nx*y + x", w(conv[1], how), r.value, q, and_(g, r.guard))
    r = I.method(owner, conv[2], q)
    ck.no_raise("a valid index is accepted", w(conv[2]), r, g)
    ck.eq("the index pair inverts the sequential index", w(conv[2]), s.fz(r.value), ix(x, y), and_(g, r.guard))
    ck.eq("len is nx*ny", w("__len__"), I.method(owner, "__len__").value, lift_num(mul, nx, ny), g)
    e = ck.order
    r = I.run(e["indices"], [owner])
    want = I.run(e["grid"], [nx, ny])
    plain = lambda v: retag(I.freeze(v))
    ck.no_raise("iteration does not raise", w("__iter__"), r, g)
    ck.eq("iteration order is row-major", w("__iter__"), plain(r.value), plain(want.value), and_(g, r.guard))
    r = I.run(e["seqindices"], [owner])
    ck.eq("iteration is in increasing sequential index", w("__iter__"), I.freeze(r.value),
          I.freeze(I.run(e["count"], [nx, ny]).value), and_(g, r.guard))


def retag(v):
    """Index tuples as plain tuples, inside sequences as well."""
    def go(u):
        if not isinstance(u, terms.T):
            return tuple(go(x) for x in u) if isinstance(u, tuple) else u
        if u.op == "tup" and u.args[0] == "Index2D":
            return mk("tup", "", *[go(x) for x in u.args[1:]])
        if u.op in ("tup", "seq", "seg", "comp", "ite"):
            if u.op == "ite":
                return terms.ite(terms.atom_bdd(u.args[0]), go(u.args[1]), go(u.args[2]))
            return mk(u.op, *[go(x) for x in u.args])
        return u
    return go(v)


# ------------------------------------------------------------------ C19
def c19(ck):
    for s in subjects(ck):
        ck.guard("C19", s.label, c19_grid, ck, s, s.tract, "getPatchInfo", s.nx, s.ny, TRUE, ())
        if s.bkind == "cells":
            x, y, p, g = a_patch(ck, s)
            ck.guard("C19", s.label + " cells", c19_grid, ck, s, p, "getCellInfo", s.ncx, s.ncy, g,
                     ("getSequentialCellIndexFromPair", "getCellIndexPair"))


def c19_grid(ck, s, owner, getter, nx, ny, g, conv):
    I = ck.I
    oc = I.obj(owner).cls
    t = s.tag + getter[3]

    def ranged(name, lo=None, hi=None):
        v = sym(name + t, "int")
        fact(v, lo, hi)
        return v
    if nx.op != "num" or ny.op != "num":
        return ck.undecided("IndexError exactly for an index outside the grid", ck.where(oc, getter), "grid size")
    n1, total = (sub(nx, ONE), sub(ny, ONE)), mul(nx, ny)
    anyx, anyy = ranged("x?"), ranged("y?")
    inx, iny = ranged("x+", 0, n1[0]), ranged("y+", 0, n1[1])
    outside = [("x below the grid", ranged("x<", None, -1), anyy), ("x above the grid", ranged("x>", nx), anyy),
               ("y below the grid", anyx, ranged("y<", None, -1)), ("y above the grid", anyx, ranged("y>", ny))]
    inside = [("inside", inx, iny)]
    keys = []
    for label, x, y in outside + inside:
        for how, k in (("Index2D", ix(x, y)), ("pair", mk("tup", "", x, y))):
            keys.append(("%s, %s" % (how, label), k, label != "inside", False))
    keys.append(("sequential, below the grid", ranged("q<", None, -1), True, True))
    keys.append(("sequential, above the grid", ranged("q>", total), True, True))
    keys.append(("sequential, inside", add(mul(nx, iny), inx), False, True))
    for how, k, bad, isseq in keys:
        cases = [(getter, I.method(owner, getter, k)), ("__getitem__", getitem(I, owner, k))]
        if conv:
            m = conv[1] if isseq else conv[0]
            cases.append((m, I.method(owner, m, k)))
        for m, r in cases:
            c = "%s [%s, %s]" % (ck.where(oc, m), s.label, how)
            ck.eq("IndexError exactly for an index outside the grid", c, r.raised("IndexError"),
                  terms.boolc(bad), g)
            other = FALSE
            for e, x_ in r.excs:
                if exc_name(x_) != "IndexError":
                    other = or_(other, e)
            ck.eq("no other exception", c, other, FALSE, g)


# ------------------------------------------------------------------ C20
FIND = """
import math
import numpy as np
import lsst.geom as geom
import lsst.pex.exceptions as pexExceptions

def find(wcs, coord, w, h, dx, dy):
    try:
        p = wcs.skyToPixel(coord)
    except (pexExceptions.DomainError, pexExceptions.RuntimeError):
        return None
    if not (np.isfinite(p.getX()) and np.isfinite(p.getY())):
        return None
    px = math.floor(p.getX() + 0.5)
    py = math.floor(p.getY() + 0.5)
    if px < 0 or py < 0 or px >= w or py >= h:
        return None
    return (px//dx, py//dy)

def findlist(wcs, coords, w, h, b, dx, dy):
    box = geom.Box2D()
    for c in coords:
        try:
            p = wcs.skyToPixel(c)
        except (pexExceptions.DomainError, pexExceptions.RuntimeError):
            continue
        box.include(p)
    box = geom.Box2I(box)
    box.grow(b)
    box.clip(geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(w, h)))
    if box.isEmpty():
        return []
    return [(x, y) for x in range(box.getMinX()//dx, box.getMaxX()//dx + 1)
            for y in range(box.getMinY()//dy, box.getMaxY()//dy + 1)]

def listed(tract, coords):
    return [p.getIndex() for p in tract.findPatchList(coords)]
"""


def c20(ck):
    I = ck.I
    e = I.spec(FIND, "find")
    subs = list(subjects(ck))
    I.projection_raises = True
    for s in subs:
        ck.guard("C20", s.label, c20_one, ck, s, e)


def c20_one(ck, s, e):
    import worlds
    I = ck.I
    coord = worlds.coord("sought")
    W, H = s.size()
    wcs = s.get("getWcs").value
    want = I.run(e["find"], [wcs, coord, W, H, s.dx, s.dy])
    none = lift(lambda v: terms.boolc(v is terms.NONE), want.value)
    c = "%s [%s]" % (s.where("findPatch"), s.label)
    r = s.get("findPatch", coord)
    ck.eq("LookupError exactly if not projectable, not finite or outside", c, r.raised("LookupError"), none)
    m = inside_pixels(s, want.value)
    put = lambda v: terms.subst(v, m) if m else v
    other = FALSE
    names = set()
    for g, x in r.excs:
        if exc_name(x) != "LookupError":
            other = or_(other, g)
            names.add(exc_name(x))
    care = put(not_(none))
    ck.eq("no other exception outside", c, other, FALSE, none, what="/".join(sorted(names)))
    ck.eq("no other exception inside", c, put(other), FALSE, care, what="/".join(sorted(names)))
    if r.guard is not FALSE:
        i = I.method(r.value, "getIndex")
        ck.eq("the patch whose inner box holds the nearest pixel", c, put(retag(s.fz(i.value))),
              put(s.fz(want.value)), and_(put(r.guard), care))
    c = "%s [%s]" % (s.where("contains"), s.label)
    r = s.get("contains", coord)
    ck.no_raise("contains never raises", c, r)
    ck.eq("contains exactly when findPatch returns", c, r.value, not_(none), r.guard)


def inside_pixels(s, v):
    """Every pixel of the tract box is (x dx + u, y dy + v) with x, y a patch
    and u, v an offset in it; what to substitute for the pixel."""
    m = {}
    for axis, n, d in (("x", s.nx, s.dx), ("y", s.ny, s.dy)):
        if n.op != "num":
            return {}
        at = [a for a in terms.all_atoms(v) if a.op == "floor" and contains_app(a, "pix" + axis)]
        at = [a for a in at if not any(b is not a and b in terms.all_atoms(a) for b in at)]
        if len(at) != 1:
            return {}
        k = index_in("patch." + axis + s.tag, n)
        u = index_in("offset." + axis + s.tag, d)
        m[at[0]] = add(mul(k, d), u)
    return m


def contains_app(a, name):
    return any(b.op == "app" and b.args[0] == name for b in terms.all_atoms(a))


def axis_cases(tag, n, d, b):
    """Positions of the projected box against the tract along one axis.

    Yields (label, first, last): the first and last pixel, before growing, as
    integers, with the facts of the case recorded.  Every position of a
    box relative to the tract is in exactly one case.
    """
    W = mul(n, d)

    def v(name, lo=None, hi=None):
        u = sym(name + tag, "int")
        fact(u, lo, hi)
        return u

    below = sub(sub(b, ONE), v("k-", 0))                     # first pixel left of the tract after growing
    above = sub(add(W, v("k+", 0)), b)
    p, u = v("p", 0, sub(n, ONE)), v("u", 0, sub(d, ONE))
    first = add(b, add(mul(p, d), u))                        # inside, in patch p
    q, w = v("q", 0, sub(n, ONE)), v("v", 0, sub(d, ONE))
    last = sub(add(mul(q, d), w), b)
    w2 = v("w", 0, sub(sub(d, ONE), u))
    r = v("r", 0, sub(sub(n, num(2)), p))
    yield "over both ends", below, above
    yield "over the lower end", below, last
    yield "over the upper end", first, above
    yield "inside one patch", first, sub(add(mul(p, d), add(u, w2)), b)
    yield "inside several patches", first, sub(add(mul(add(add(p, ONE), r), d), w), b)


def axis_outside(tag, n, d, b):
    k = sym("o" + tag, "int")
    fact(k, 0)
    m = sym("e" + tag, "int")
    fact(m, 0)
    hi = sub(neg(b), add(k, ONE))
    yield "left of the tract", sub(hi, m), hi
    lo = add(add(mul(n, d), b), k)
    yield "right of the tract", lo, add(lo, m)


def c21(ck):
    I = ck.I
    e = I.spec(FIND, "find")
    subs = list(subjects(ck))
    I.projection_raises = True
    for s in subs:
        ck.guard("C21", s.label, c21_one, ck, s, e)


HULL = """
import lsst.geom as geom
import lsst.pex.exceptions as pexExceptions

def hull(wcs, coords):
    box = geom.Box2D()
    n = 0
    for c in coords:
        try:
            p = wcs.skyToPixel(c)
        except (pexExceptions.DomainError, pexExceptions.RuntimeError):
            continue
        box.include(p)
        n += 1
    return (box.getMinX(), box.getMinY(), box.getWidth(), box.getHeight(), n)
"""


def c21_one(ck, s, e):
    import models
    I = ck.I
    n = terms.atom(mk("len", mk("x", "seq", "config", terms.const("#coords"))))
    coords = mk("symseq", mk("x", "seq", "config", terms.const("coords")), "sp", n)
    W, H = s.size()
    wcs = s.get("getWcs").value
    c = "%s [%s]" % (s.where("findPatchList"), s.label)
    rule = "exactly the patches that meet the grown and clipped box"
    if s.nx.op != "num" or s.ny.op != "num":
        return ck.undecided(rule, c, "number of patches")
    hull = I.run(I.spec(HULL, "hull")["hull"], [wcs, coords])
    at = []
    for name in ("hullmin", "hullext"):
        for axis in ("pixx", "pixy"):
            a = [x for x in terms.all_atoms(hull.value) if x.op == "app" and x.args[0] == name and
                 contains_app(x, axis)]
            if len(a) != 1:
                return ck.undecided(rule, c, "hull")
            at.append(terms.atom(a[0]))
    cnt = [x for x in terms.all_atoms(hull.value) if x.op == "count"]
    half = terms.Fraction(1, 2)
    fr = []
    for nm in ("fx0", "fy0", "fx1", "fy1"):
        f = sym(nm, "real")
        eps = terms.Fraction(1, 10 ** 9)
        # the first pixel is rounded half up, the last one half down
        fact(f, *((-half, half - eps) if nm[-1] == "0" else (eps - half, half)))
        fr.append(f)
    ax, ay = list(axis_cases("x" + s.tag, s.nx, s.dx, s.border)), list(axis_cases("y" + s.tag, s.ny, s.dy, s.border))
    ox, oy = list(axis_outside("x" + s.tag, s.nx, s.dx, s.border)), list(axis_outside("y" + s.tag, s.ny, s.dy,
                                                                                      s.border))
    if ck.tier == "quick":
        combos = [(x, ay[(i + 2) % 5]) for i, x in enumerate(ax)] + [(x, ay[(i + 4) % 5]) for i, x in enumerate(ax)]
    else:
        combos = [(x, y) for x in ax for y in ay]
    combos += [(o, ay[4]) for o in ox] + [(ax[4], o) for o in oy]
    st = lambda v: mk("tup", "#set", retag(I.freeze(v)))
    for a in cnt:
        terms.FACTS[a] = (ONE, None)
    terms.clear_caches()
    try:
        for (lx, x0, x1), (ly, y0, y1) in combos:
            u0, v0, u1, v1 = add(x0, fr[0]), add(y0, fr[1]), add(x1, fr[2]), add(y1, fr[3])
            models.HULL_ALIAS.update(zip(at, (u0, v0, sub(u1, u0), sub(v1, v0))))
            want = I.run(e["findlist"], [wcs, coords, W, H, s.border, s.dx, s.dy])
            got = I.run(e["listed"], [s.tract, coords])
            d = "%s, x %s, y %s]" % (c[:-1], lx, ly)
            ck.no_raise("never raises", d, got)
            ck.eq(rule, d, st(got.value), st(want.value), and_(got.guard, want.guard))
        for a in cnt:
            terms.FACTS[a] = (ZERO, ZERO)
        terms.clear_caches()
        models.HULL_ALIAS.clear()
        got = I.run(e["listed"], [s.tract, coords])
        d = "%s, nothing projectable]" % c[:-1]
        ck.no_raise("never raises", d, got)
        ck.eq(rule, d, st(got.value), st(I.newlist(terms.seq())), got.guard)
    finally:
        models.HULL_ALIAS.clear()
        for a in cnt:
            terms.FACTS.pop(a, None)
        terms.clear_caches()


def aslist(v):
    return v


# ------------------------------------------------------------------ C22
def shift_of(w, base):
    """The pixel shift that makes w of base (a pair), or None."""
    def one(u):
        dx = dy = ZERO
        while u.op == "x" and u.args[1] == "shift":
            dx, dy = lift_num(add, dx, u.args[3]), lift_num(add, dy, u.args[4])
            u = u.args[2]
        return mk("tup", "", u, dx, dy)
    r = lift(one, w)
    part = lambda k: lift(lambda t: t.args[k], r) if r.op != "tup" else r.args[k]
    return part(1), part(2), part(3)


def c22(ck):
    for s in generic(ck, ("positive", "zero"), plain=False):
        ck.guard("C22", s.label, c22_one, ck, s)


def c22_one(ck, s):
    I = ck.I
    x0, y0, x1, y1 = minimal_box(ck, s)
    c = "%s [%s]" % (s.where("__init__"), s.label)
    w = s.get("getWcs").value
    base, sx, sy = shift_of(w, s.src.wcs)
    ck.eq("the WCS is the initial WCS with a shifted pixel origin", c, base, s.src.wcs)
    W, H = s.size()
    # the shift is by whole pixels: positions keep their place in the pixel
    for axis, sh, lo, hi, size in (("x", sx, x0, x1, W), ("y", sy, y0, y1, H)):
        ck.holds("the shift is by whole pixels", c + " " + axis, lift(lambda v: terms.boolc(terms.is_int(v)), sh))
        ck.holds("the tract box starts at or below the minimum box", c + " " + axis,
                 lift(lambda a, b: le(ZERO, add(a, b)), lo, sh))
        ck.holds("the tract box ends at or above the minimum box", c + " " + axis,
                 lift(lambda a, b, n: le(add(a, b), n), hi, sh, size))


# ------------------------------------------------------------------ C24
SKY = """
import lsst.geom as geom
from lsst.sphgeom import ConvexPolygon, Box

def polygon(box, wcs):
    d = geom.Box2D(box)
    corners = [geom.Point2D(d.getMinX(), d.getMinY()), geom.Point2D(d.getMaxX(), d.getMinY()),
               geom.Point2D(d.getMaxX(), d.getMaxY()), geom.Point2D(d.getMinX(), d.getMaxY())]
    return ConvexPolygon([p.getVector() for p in wcs.pixelToSky(corners)])

def hull(vertices):
    return ConvexPolygon.convexHull([v.getVector() for v in vertices])

def innerbox(a, b):
    return Box(point1=a, point2=b)
"""


def c24(ck):
    e = ck.I.spec(SKY, "sky")
    for s in subjects(ck):
        ck.guard("C24", s.label, c24_one, ck, s, e)
    for s in generic(ck, corners=True):
        ck.guard("C24", s.label, c24_corners, ck, s, e)


def c24_corners(ck, s, e):
    I = ck.I
    r = s.get("getInnerSkyRegion")
    c = "%s [%s]" % (s.where("getInnerSkyRegion"), s.label)
    ck.no_raise("does not raise", c, r)
    ck.eq("inner region is the box of the corners given", c, s.fz(r.value),
          s.fz(I.run(e["innerbox"], s.src.corners).value), r.guard)


def c24_one(ck, s, e):
    import worlds
    I = ck.I
    other = mk("x", "SkyWcs", "sym", terms.const("given"))
    spec = lambda *a: s.fz(I.run(e["polygon"], list(a)).value)
    x, y, p, g = a_patch(ck, s)
    objs = [(p, g)]
    if s.bkind == "cells":
        i, j = cell_indices(ck, s)
        r = I.method(p, "getCellInfo", ix(i, j))
        objs.append((r.value, and_(g, r.guard)))
    twcs = s.get("getWcs").value
    for o, h in objs:
        oc = I.obj(o).cls
        for which in ("Inner", "Outer"):
            m = "get%sSkyPolygon" % which
            b = I.method(o, "get%sBBox" % which).value
            c = "%s [%s" % (ck.where(oc, m), s.label)
            for how, r, w in (("", I.method(o, m), twcs), (", WCS given", I.method(o, m, other), other),
                              (", tractWcs given", I.method(o, m, tractWcs=other), other),
                              (", property", I.attr(o, which.lower() + "_sky_polygon"), twcs)):
                ck.no_raise("does not raise", c + how + "]", r, h)
                ck.eq("%s polygon is that of the four corners of the %s box" % (which.lower(), which.lower()),
                      c + how + "]", s.fz(r.value), spec(b, w), and_(h, r.guard))
    b = s.get("getBBox").value
    for how, r in (("", s.get("getOuterSkyPolygon")), (", property", I.attr(s.tract, "outer_sky_polygon"))):
        c = "%s [%s%s]" % (s.where("getOuterSkyPolygon"), s.label, how)
        ck.no_raise("does not raise", c, r)
        ck.eq("outer polygon of a tract is that of its box", c, s.fz(r.value), spec(b, twcs), r.guard)
    want = s.fz(I.run(e["hull"], [s.get("getVertexList").value]).value)
    for how, r in (("", s.get("getInnerSkyPolygon")), (", property", I.attr(s.tract, "inner_sky_polygon"))):
        c = "%s [%s%s]" % (s.where("getInnerSkyPolygon"), s.label, how)
        ck.no_raise("does not raise", c, r)
        ck.eq("inner polygon of a tract is the convex hull of its vertices", c, s.fz(r.value), want, r.guard)
    if not (hasattr(s, "world") and s.world.kind == "rings"):
        for how, r in (("", s.get("getInnerSkyRegion")), (", property", I.attr(s.tract, "inner_sky_region"))):
            c = "%s [%s%s]" % (s.where("getInnerSkyRegion"), s.label, how)
            ck.no_raise("does not raise", c, r)
            ck.eq("inner region of a tract without corners is the convex hull of its vertices", c, s.fz(r.value),
                  want, r.guard)


# ------------------------------------------------------------------ C31
PAIRS = {
    "TractInfo": {"bbox": "getBBox", "ctr_coord": "getCtrCoord", "tract_id": "getId", "num_patches": "getNumPatches",
                  "patch_border": "getPatchBorder", "patch_inner_dimensions": "getPatchInnerDimensions",
                  "tract_overlap": "getTractOverlap", "vertex_list": "getVertexList",
                  "inner_sky_polygon": "getInnerSkyPolygon", "inner_sky_region": "getInnerSkyRegion",
                  "outer_sky_polygon": "getOuterSkyPolygon", "wcs": "getWcs"},
    "PatchInfo": {"index": "getIndex", "sequential_index": "getSequentialIndex", "wcs": "getWcs",
                  "inner_bbox": "getInnerBBox", "outer_bbox": "getOuterBBox",
                  "inner_sky_polygon": "getInnerSkyPolygon", "outer_sky_polygon": "getOuterSkyPolygon",
                  "num_cells": "getNumCells", "cell_border": "getCellBorder",
                  "cell_inner_dimensions": "getCellInnerDimensions"},
    "CellInfo": {"index": "getIndex", "sequential_index": "getSequentialIndex", "wcs": "getWcs",
                 "inner_bbox": "getInnerBBox", "outer_bbox": "getOuterBBox",
                 "inner_sky_polygon": "getInnerSkyPolygon", "outer_sky_polygon": "getOuterSkyPolygon"},
}


def c31(ck):
    for s in subjects(ck):
        ck.guard("C31", s.label, c31_one, ck, s)
    for s in generic(ck, corners=True):
        ck.guard("C31", s.label, c31_pairs, ck, s, "TractInfo", s.tract, TRUE)
    ck.guard("C31", "PatchInfo", c31_built, ck)


def c31_pairs(ck, s, kind, o, g):
    I = ck.I
    oc = I.obj(o).cls
    for prop, getter in sorted(PAIRS[kind].items()):
        a, b = I.attr(o, prop), I.method(o, getter)
        c = "%s [%s]" % (ck.where(oc, prop), s.label if s else kind)
        ck.no_raise("does not raise", c, a, g)
        ck.eq("property %s is %s()" % (prop, getter), c, I.freeze(a.value), I.freeze(b.value),
              and_(g, a.guard, b.guard))


def c31_one(ck, s):
    I = ck.I
    c31_pairs(ck, s, "TractInfo", s.tract, TRUE)
    x, y, p, g = a_patch(ck, s)
    c31_pairs(ck, s, "PatchInfo", p, g)
    w = lambda n: "%s [%s]" % (s.where(n), s.label)
    twcs = s.get("getWcs").value
    ck.eq("a patch has the WCS of its tract", "%s [%s]" % (ck.where(I.obj(p).cls, "getWcs"), s.label),
          I.method(p, "getWcs").value, twcs, g)
    if s.bkind == "cells":
        i, j = cell_indices(ck, s)
        r = I.method(p, "getCellInfo", ix(i, j))
        c31_pairs(ck, s, "CellInfo", r.value, and_(g, r.guard))
        ck.eq("a cell has the WCS of its tract", "%s [%s]" % (ck.where(I.obj(r.value).cls, "getWcs"), s.label),
              I.method(r.value, "getWcs").value, twcs, and_(g, r.guard))
    if isinstance(s.src, object) and hasattr(s.src, "id"):
        t = s.src
        for m, want in (("getId", t.id), ("getCtrCoord", t.ctr), ("getTractOverlap", t.overlap)):
            ck.eq("a tract reports what it was built with", w(m), s.fz(s.get(m).value), want)
        if not hasattr(t, "radius"):
            ck.eq("a tract reports what it was built with", w("getVertexList"), s.fz(s.get("getVertexList").value),
                  t.vertices)


def c31_built(ck):
    """Patches and cells made from their public constructors."""
    from interp import py
    I = ck.I
    import worlds

    def point(name):
        v = sym(name, "int")
        return v
    env = I.spec("""
import lsst.geom as geom

def box(x, y, w, h):
    return geom.Box2I(geom.Point2I(x, y), geom.Extent2I(w, h))
""", "box")
    a = {n: sym("b." + n, "int") for n in "xywhk"}
    for n in "wh":
        fact(a[n], 1)
    fact(a["k"], 0)
    wcs = mk("x", "SkyWcs", "sym", terms.const("wcs"))
    inner = I.run(env["box"], [a["x"], a["y"], a["w"], a["h"]]).value
    k = a["k"]
    outer = I.run(env["box"], [sub(a["x"], k), sub(a["y"], k), add(a["w"], mul(num(2), k)),
                               add(a["h"], mul(num(2), k))]).value
    i, j, q = sym("b.i", "int"), sym("b.j", "int"), sym("b.q", "int")
    cb, n, m = sym("b.cb", "int"), sym("b.n", "int"), sym("b.m", "int")
    fact(cb, 0), fact(n, 1), fact(m, 0)
    cs = sym("b.cs", "int")
    fact(cs, 1)
    base = {"getIndex": ix(i, j), "getSequentialIndex": q, "getWcs": wcs,
            "getInnerBBox": I.freeze(inner), "getOuterBBox": I.freeze(outer)}
    kw = dict(index=ix(i, j), innerBBox=inner, outerBBox=outer, sequentialIndex=q, tractWcs=wcs)
    cells = dict(kw, cellInnerDimensions=mk("tup", "", cs, cs), cellBorder=cb, numCellsPerPatchInner=n,
                 numCellsInPatchBorder=m)
    nc = add(n, mul(num(2), m))
    for cls, args, more in (("CellInfo", kw, {}), ("PatchInfo", kw, {"getNumCells": ix(ZERO, ZERO),
                                                                    "getCellBorder": ZERO}),
                            ("PatchInfo", cells, {"getNumCells": ix(nc, nc), "getCellBorder": cb})):
        r = I.run(py(I.cls(cls)), [], dict(args))
        for name, want in sorted(dict(base, **more).items()):
            ck.eq("reports what it was built with", ck.where(cls, name) + " [built directly]",
                  I.freeze(I.method(r.value, name).value), want, r.guard)
        c31_pairs(ck, None, cls, r.value, r.guard)
        ck.no_raise("can be built", ck.where(cls, "__init__"), r)
