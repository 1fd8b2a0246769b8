"""C02-C04: independence of accesses, read-only queries, no shared mutables."""
import os
import time

import alias
import terms
from terms import (mk, num, add, sub, mul, ONE, ZERO, TRUE, FALSE, NONE, sym, fact, restrict, and_, or_, not_, const,
                   is_const, cval, T)
from interp import exc_name, AnalysisError, ClassVal, FuncVal, PropVal
from worlds import World, MAPS, BUILDERS, getitem, index_in, coord, py
import worlds
from rules_maps import QUANTITIES, uncopied
from rules_hash import another, at, maps, VERSIONS
from subjects import isolated, subclasses, generic, world_subjects, ix
from rules_tract import a_patch, cell_indices
from rules_packer import Setup

USES = """
def get(m, i, c):
    m[i]

def deep(m, i, c):
    t = m[i]
    t.getPatchInfo(0)
    t.getPatchInfo((0, 0)).getOuterBBox()
    t.getBBox()
    t.getVertexList()
    t.getNumPatches()
    t.getInnerSkyPolygon
    t.getOuterSkyPolygon()

def find(m, i, c):
    m.findTract(c)

def findlist(m, i, c):
    m.findTractPatchList([c])

def closest(m, i, c):
    m.findClosestTractPatchList([c])

def array(m, i, c):
    m.findTractIdArray([c.getRa().asRadians()], [c.getDec().asRadians()])

def hashed(m, i, c):
    m.getSha1()
    hash(m)
    len(m)

def log(m, i, c):
    m.logSkyMapInfo(Log())

def walk(m, i, c):
    for t in m:
        t.getId()

def stub(self, coords):
    return []

class Log:
    def info(self, *args):
        pass
"""


class View:
    """What a tract reports, and its patch with arbitrary index."""

    def __init__(self, I, t, tag, patch=True):
        self.I = I
        self.values = []
        x, y = sym("x." + tag, "int"), sym("y." + tag, "int")
        fact(x, 0)
        fact(y, 0)
        for q in QUANTITIES:
            r = I.method(t, q)
            self.values.append((q, uncopied(I.deep(r.value)), r.guard))
        if patch:
            ix = mk("tup", "Index2D", x, y)
            r = I.method(t, "getPatchInfo", ix)
            p = r.value
            self.values.append(("getPatchInfo", uncopied(I.deep(p)), r.guard))
            r = I.method(t, "getSequentialPatchIndexFromPair", ix)
            self.values.append(("getSequentialPatchIndexFromPair", r.value, r.guard))
            r = I.method(t, "getPatchIndexPair", x)
            self.values.append(("getPatchIndexPair", I.deep(r.value), r.guard))

    def same(self, ck, rule, where, other, care):
        for (q, a, g), (_, b, h) in zip(self.values, other.values):
            ck.eq(rule, where + " " + q, a, b, and_(care, and_(g, h)))
            ck.eq(rule, where + " " + q, g, h, care)


# ------------------------------------------------------------------ C02
def c02(ck):
    I = ck.interp()
    e = I.spec(USES, "uses")
    for w in maps(ck):
        ck.guard("C02", w.name(), c02_one, ck, w, e)


def c02_one(ck, w, e):
    I = ck.I
    tag = "c02%s%s%s" % (w.kind[:2], w.builder[0], w.version if w.version is not None else "")
    n = w.len()
    i = index_in("i." + tag, n)
    c = coord("c.c02")
    where = at(ck, w, "__getitem__")

    def fresh():
        r = getitem(I, w.map, i)
        return r, View(I, r.value, tag)
    ra, alone = isolated(I, fresh)
    ck.no_raise("an index below len gives a tract", where, ra)
    if ra.guard is FALSE:
        return
    for use in [n for n in e if hasattr(e[n], "op") and n not in ("Log", "stub") and n[0] != "_"]:
        for which in ("the same tract", "a lower tract", "a higher tract"):
            if use not in ("get", "deep") and which != "the same tract":
                continue
            if use in ("find", "findlist", "closest", "array", "walk", "log") and w.kind in worlds.CACHING:
                continue        # these use [] of some tracts, and write nothing else: C03
            if which != "the same tract" and terms.num_const(n) == 1:
                continue
            j = i if which == "the same tract" else another(i, n, which)
            snap = I.snapshot()
            try:
                lab = "%s after %s of %s" % (where, use, which)
                if use in ("findlist", "closest"):
                    # what tracts do to answer is C03
                    for k in subclasses(I, "TractInfo"):
                        if "findPatchList" in k.attrs:
                            k.attrs["findPatchList"] = e["stub"]
                u = I.run(e[use], [w.map, j, c])
                if u.guard is FALSE and use in ("get", "deep"):
                    ck.undecided("tracts do not depend on earlier accesses", lab, "the access fails")
                    continue
                r = getitem(I, w.map, i)
                ck.eq("tracts do not depend on earlier accesses", lab, r.guard, ra.guard)
                View(I, r.value, tag).same(ck, "tracts do not depend on earlier accesses", lab, alone, and_(
                    ra.guard, r.guard))
            finally:
                I.restore(snap, True)
            # a tract that exists is not changed by later accesses
            if use in ("get", "deep"):
                snap = I.snapshot()
                try:
                    lab = "%s before %s of %s" % (where, use, which)
                    r = getitem(I, w.map, i)
                    I.run(e[use], [w.map, j, c])
                    View(I, r.value, tag).same(ck, "tracts do not depend on later accesses", lab, alone, r.guard)
                finally:
                    I.restore(snap, True)
    # another sky map of the same type with another configuration
    snap = I.snapshot()
    try:
        lab = where + " with another sky map in use"
        r0 = getitem(I, w.map, i)
        o = World(I, w.kind, w.builder, w.version, prefix="other." + w.name())
        k = index_in("k." + tag, o.len())
        I.run(e["deep"], [o.map, k, c])
        View(I, r0.value, tag).same(ck, "tracts do not depend on other sky maps", lab, alone, r0.guard)
    finally:
        I.restore(snap, True)
    snap = I.snapshot()
    try:
        lab = where + " after use of another sky map"
        o = World(I, w.kind, w.builder, w.version, prefix="other." + w.name())
        k = index_in("k." + tag, o.len())
        I.run(e["deep"], [o.map, k, c])
        r0 = getitem(I, w.map, i)
        View(I, r0.value, tag).same(ck, "tracts do not depend on other sky maps", lab, alone, r0.guard)
    finally:
        I.restore(snap, True)


# ------------------------------------------------------------------ queries
DUNDER = ("__len__", "__iter__", "__getitem__", "__eq__", "__ne__", "__hash__", "__str__", "__repr__", "__reduce__",
          "__reduce_ex__", "__getstate__", "__contains__", "__lt__", "__bool__")
# what creates or registers, and the generator behind []
EXCLUDED = ("register", "from_config", "make_config_field", "setupPatches", "generateTract", "updateSha1")
WRITERS = ("setattr", "setitem")
# mutable values of the libraries
MUTABLE = ("Box2I", "Box2D", "Point2I", "Point2D", "Extent2I", "Extent2D", "list", "dict", "set", "ndarray")

STUBS = """
class Log:
    def info(self, *args):
        pass
    debug = warning = verbose = trace = log = info

class Tract:
    def __init__(self, coord, number):
        self.coord, self.number = coord, number
    def getId(self):
        return self.number
    def getCtrCoord(self):
        return self.coord
    def findPatchList(self, coords):
        return []
    def findPatch(self, coord):
        return None
    def contains(self, coord):
        return True
    def getInnerSkyRegion(self):
        return None
    tract_id = property(getId)
    ctr_coord = property(getCtrCoord)

def each(o):
    return [x for x in o]

def eq(a, b):
    return a == b

def ne(a, b):
    return a != b

def tract(coord, number):
    return Tract(coord, number)
"""


class Scene:
    """Objects of the package that belong together, and the questions that
    can be asked of them."""

    def __init__(self, ck, label, tag):
        self.ck, self.I, self.label, self.tag = ck, ck.I, label, tag
        self.objects = []
        self.skip = set()
        if not hasattr(ck, "stubs_env"):
            ck.stubs_env = ck.I.spec(STUBS, "queries")
        self.e = ck.stubs_env
        c = coord("c." + tag)
        wcs = mk("x", "SkyWcs", "sym", const("other." + tag))
        lst = lambda *v: (lambda: self.I.newlist(terms.seq(*[terms.seg(x) for x in v])))
        ra, dec = sym("ra." + tag), sym("dec." + tag)
        self.args = {
            "coord": [c], "coordList": [lst(c)], "ra": [lst(ra)], "dec": [lst(dec)],
            "tractWcs": [NONE, wcs], "log": [lambda: self.I.run(self.e["Log"]).value],
            "crPixPos": [lambda: self.I.run(mk("ext", "lsst.geom.Point2D"), [ra, dec]).value], "crValCoord": [c],
            "vec": [mk("x", "ndarray", "sym", const("vec." + tag))],
        }

    def add(self, label, o, **args):
        self.objects.append((label, o, args))
        return self

    def queries(self):
        """(name, class, function) for all of them."""
        I = self.I
        for label, o, args in self.objects:
            c = I.obj(o).cls
            names = []
            for k in c.mro():
                if isinstance(k, ClassVal):
                    names += [n for n in k.attrs if n not in names]
            for n in sorted(names):
                if n in EXCLUDED or n in self.skip or n[0] == "_" and n not in DUNDER:
                    continue
                v, owner = c.lookup(n)
                if v is None or v.op != "py" or owner is None:
                    continue
                if isinstance(v.args[0], PropVal):
                    yield "%s.%s" % (label, n), c, n, lambda o=o, n=n: I.attr(o, n)
                elif isinstance(v.args[0], FuncVal):
                    f = v.args[0]
                    if f.classm or f.static:
                        continue
                    yield from self.calls(label, o, c, n, f, args)
            if c.extbases() and any(b.endswith("DimensionPacker") for b in c.extbases()):
                for d in args.get("dataId", []):
                    yield label + ".pack", c, "_pack", lambda o=o, d=d: I.method(o, "pack", d)

    def calls(self, label, o, c, n, f, args):
        I = self.I
        e = self.e
        if n == "__len__":
            yield "len(%s)" % label, c, n, lambda: I.run(mk("ext", "builtins.len"), [o])
            return
        if n == "__iter__":
            yield "list(%s)" % label, c, n, lambda: I.run(e["each"], [o])
            return
        if n == "__hash__":
            yield "hash(%s)" % label, c, n, lambda: I.run(mk("ext", "builtins.hash"), [o])
            return
        if n in ("__eq__", "__ne__"):
            for x in args.get("other", [o]):
                yield "%s %s another" % (label, "==" if n == "__eq__" else "!="), c, n, \
                    lambda x=x: I.run(e[n.strip("_")], [o, x])
            return
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:]
        need = len(names) - len(f.defaults)
        alts = [[]]
        for i, p in enumerate(names):
            have = args.get(p) or self.args.get(p)
            if p in ("protocol",):
                have = [num(2)]
            if have is None:
                if i >= need:
                    break
                self.ck.undecided("queries can be asked", "%s.%s" % (label, n), "no value for parameter %s" % p)
                return
            alts = [x + [y] for x in alts for y in have]
        for k, al in enumerate(alts):
            def go(al=al):
                vals = [v() if not isinstance(v, T) else v for v in al]
                if n == "__getitem__":
                    return getitem(I, o, vals[0])
                return I.method(o, n, *vals)
            yield "%s.%s" % (label, n) + ("" if len(alts) == 1 else " (%d)" % (k + 1)), c, n, go

    def where(self, q, c, n):
        return "%s [%s, %s]" % (self.ck.where(c, n), self.label, q)

    def answers(self):
        """What every query gives now, each asked alone."""
        out = []
        for q, c, n, f in list(self.queries()):
            r = isolated(self.I, lambda: value(self.I, f()))
            out.append((q, c, n) + r)
        return out


def value(I, r):
    return uncopied(I.deep(r.value)) if r.guard is not FALSE else None, r.guard


def changes(I, snap):
    """What differs from an earlier state."""
    out = []
    for i, f in snap[0].items():
        o = I.heap[i]
        for k in set(f) | set(o.fields):
            if f.get(k) is not o.fields.get(k):
                out.append((o, k))
    for d, f in snap[1]:
        if d != f:
            out.append((None, sorted(str(k) for k in set(d) | set(f) if d.get(k) is not f.get(k))[0]))
    for f, m in snap[2]:
        if f.memo != m:
            out.append((None, "cache of " + f.qual()))
    return out


def said(o, k):
    if o is None:
        return k
    return "%s.%s" % (getattr(o.cls, "name", o.cls), k)


def compare(ck, s, rule, where, before, after):
    for (q, c, n, a, g), (_, _, _, b, h) in zip(before, after):
        w = "%s, then %s" % (where, q)
        ck.eq(rule, w, h, g)
        if a is not None and b is not None:
            ck.eq(rule, w, b, a, and_(g, h))


def scenes(ck):
    """(label, function that makes the scene) of everything that is analysed."""
    I = ck.I

    def tract(s):
        def make():
            sc = Scene(ck, s.label, s.tag)
            x, y, p, g = a_patch(ck, s)
            k = sym("k." + s.tag, "int")
            fact(k, 0)
            sc.add("tract", s.tract, index=[ix(x, y), k], sequentialIndex=[k], patchInfo=[p])
            a = dict(index=[ix(x, y), k], sequentialIndex=[k], cellInfo=[p])
            c = None
            if s.bkind == "cells":
                i, j = cell_indices(ck, s)
                r = I.method(p, "getCellInfo", ix(i, j))
                if r.guard is not FALSE:
                    c = r.value
                a["index"] = [ix(i, j), k]
            if c is not None:
                a["cellInfo"] = [c]
            sc.add("patch", p, **a)
            if c is not None:
                sc.add("cell", c)
            return sc
        return make
    for s in generic(ck):
        yield s.label, tract(s)
    for s in generic(ck, corners=True):
        if s.label.startswith("Explicit"):
            yield s.label, tract(s)
            break
    for w in maps(ck):
        yield w.name(), lambda w=w: a_map(ck, w)
    yield "WcsFactory", lambda: factory(ck)
    for orient in (TRUE, FALSE):
        yield "Dodecahedron", lambda: faces(ck, orient)
    for nb, bands in (("n", "given"), (0, "given"), (None, "default")):
        yield "packer", lambda: packer(ck, nb, bands)


def a_map(ck, w):
    I = ck.I
    tag = "q" + w.name()
    sc = Scene(ck, w.name(), tag)
    n = w.len()
    i = index_in("i." + tag, n)
    o = World(I, w.kind, w.builder, w.version, prefix="other." + w.name())
    sc.add("map", w.map, index=[i], ind=[i], other=[w.map, o.map])
    # the tracts themselves are other scenes, and reached with [] (C02)
    stub = I.run(sc.e["tract"], [coord("center." + tag), i]).value
    sc.skip = {"__iter__", "__getitem__"}
    sc.stub = stub
    sc.world = w
    return sc


def stubs(I, sc):
    """Let map[i] and tracts kept in lists be arbitrary tracts that cannot change."""
    from interp import FuncVal
    env = I.spec("""
def get(self, index):
    return it

def walk(self):
    for i in range(len(self)):
        yield it
""", "stubbed")
    env["it"] = sc.stub
    a = sc.world.cls.attrs
    if not hasattr(sc, "own"):
        sc.own = {k: a[k] for k in ("__getitem__", "__iter__") if k in a}
    a["__getitem__"], a["__iter__"] = env["get"], env["walk"]


def factory(ck):
    I = ck.I
    sc = Scene(ck, "WcsFactory", "f")
    ang = mk("ang", sym("rotation.f"))
    o = I.run(py(I.cls("WcsFactory")), [mk("ang", sym("scale.f")), const("TAN"), ang, terms.batom("flip")])
    return sc.add("factory", o.value)


def faces(ck, orient):
    I = ck.I
    sc = Scene(ck, "Dodecahedron", "d")
    o = I.run(py(I.cls("Dodecahedron")), [orient])
    return sc.add("dodecahedron", o.value, ind=[index_in("ind.d", num(12))])


def packer(ck, nb, bands):
    tag = "s%s%s" % (nb, bands[0])
    s = Setup(ck, nb, bands, tag=tag, fit=2 if bands == "given" else 3)
    d = s.dataid(tag, "c" if bands == "given" else "r")[0]
    d2 = s.dataid(tag + "2", "x" if bands == "given" else "i")[0]
    p = ck.I.method(s.packer, "pack", d).value
    return Scene(ck, s.label, tag).add("packer", s.packer, dataId=[d, d2], packedId=[p])


def each_scene(ck, f):
    I = ck.I
    for label, make in scenes(ck):
        snap = I.snapshot()
        try:
            sc = make()
            if hasattr(sc, "world"):
                stubs(I, sc)
            t0 = time.time()
            f(ck, sc)
            if os.environ.get("CHECK_TIMES"):
                print("%6.1f %s %d" % (time.time() - t0, label, len(I.heap)), flush=True)
        except AnalysisError as e:
            ck.undecided("scene", label, "analysis: %s" % e)
        except RecursionError:
            ck.undecided("scene", label, "analysis: recursion")
        finally:
            I.restore(snap, True)


# ------------------------------------------------------------------ C03
def c03(ck):
    ck.interp()
    each_scene(ck, c03_one)
    ck.guard("C03", "arrays", c03_arrays, ck)


def c03_one(ck, s):
    I = ck.I
    before = None
    for q, c, n, f in list(s.queries()):
        snap, ev = I.snapshot(), len(I.events)
        where = s.where(q, c, n)
        try:
            r = f()
            first = value(I, r)
            ch = changes(I, snap)
            odd = [e for e in I.events[ev:] if e.name in WRITERS]
            if odd:
                ck.undecided("queries change nothing", where, "%s at %s" % (odd[0].name, odd[0].loc))
                continue
            if not ch:
                ck.add("queries change nothing", where, "discharged")
                continue
            mid = I.snapshot()
            I.restore(snap)
            if before is None:
                before = s.answers()
            I.restore(mid)
            compare(ck, s, "what queries write cannot be seen", where + " writes " + said(*ch[0]), before, s.answers())
        except RecursionError:
            ck.undecided("queries change nothing", where, "recursion")
        finally:
            I.restore(snap, True)


# ------------------------------------------------------------------ C04
def c04(ck):
    ck.interp()
    each_scene(ck, c04_one)
    ck.guard("C04", "arrays", c04_arrays, ck)


def arrays(ck):
    """The vectors of a dodecahedron are arrays, which are opaque values: who
    holds which array is followed on the syntax tree."""
    c = ck.I.cls("Dodecahedron")
    fields = alias.fields_of(c)
    for k in c.mro():
        for n, v in getattr(k, "attrs", {}).items():
            if n[0] == "_" and n not in DUNDER or getattr(v, "op", None) != "py" or c.lookup(n)[1] is not k:
                continue
            f = v.args[0]
            if not isinstance(f, (FuncVal, PropVal)):
                continue
            where = ck.where(c, n)
            try:
                a = alias.Alias(c, fields)
                got = a.member(n) if isinstance(f, PropVal) else a.method(f)
            except alias.Unclear as e:
                ck.undecided("arrays of the dodecahedron", where, "not followed: %s" % e)
                continue
            yield where, ", ".join(sorted(x for x in fields if fields[x] != "plain")), a.holds(got), a.modified


def c03_arrays(ck):
    for where, kept, _, lines in arrays(ck):
        ck.add("queries do not change arrays in place", where, "violated" if lines else "discharged",
               "changes an array or list of arrays kept in %s, at line %s of %s" % (
                   kept, lines[0], where.split(":")[0]) if lines else "")


def c04_arrays(ck):
    for where, kept, returned, _ in arrays(ck):
        ck.add("returned arrays are the caller's own", where, "violated" if returned else "discharged",
               "may return an array, or a list with an array, that the object keeps in " + kept if returned else "")


def mutables(I, v, seen=None):
    """Mutable library objects a caller gets hold of through a value."""
    out, st, seen = [], [v], set()
    while st:
        u = st.pop()
        if not isinstance(u, T) or u.uid in seen:
            if isinstance(u, tuple):
                st += list(u)
            continue
        seen.add(u.uid)
        if u.op == "obj":
            o = I.obj(u)
            if o.cls in MUTABLE:
                out.append(u)
                st += [x for x in o.fields.values()]
            continue
        if u.op in ("tup", "ite", "seq", "seg", "splice", "comp", "num", "elem", "guarded") or u.op[0] == "s":
            st += list(u.args)
        elif u.op == "x":
            st += [a for a in u.args[2:]]
    return out


def reached(I, roots):
    """Every object that the package's objects keep."""
    out, st, seen = set(), list(roots), set()
    while st:
        u = st.pop()
        if isinstance(u, tuple):
            st += list(u)
            continue
        if not isinstance(u, T) or u.uid in seen:
            continue
        seen.add(u.uid)
        if u.op == "obj":
            out.add(u.args[0])
            st += list(I.obj(u).fields.values())
        else:
            st += list(u.args)
    return out


def state_roots(I, s):
    yield from (o for _, o, _ in s.objects)
    for d in I.namespaces():
        for v in d.values():
            if isinstance(v, T) and v.op == "obj":
                yield v
    for f in I.memos:
        for _, _, v in f.memo:
            yield v


def scramble(I, u):
    """Change a mutable object as a caller might."""
    o = I.obj(u)
    tag = "scrambled%d." % u.args[0]
    for k, v in list(o.fields.items()):
        if not isinstance(v, T):
            continue
        if v.op == "num" or v.op == "ite" and I.numish(v):
            o.fields[k] = add(v, sym(tag + k, "int"))
        elif v.op == "seq":
            o.fields[k] = terms.seq(*(list(v.args) + [terms.seg(const("scrambled"))]))
        elif v.op == "symseq":
            o.fields[k] = terms.seq(terms.seg(const("scrambled")))


def c04_one(ck, s):
    I = ck.I
    rule = "what is returned is the caller's own"
    for q, c, n, f in list(s.queries()):
        snap = I.snapshot()
        where = s.where(q, c, n)
        try:
            r = f()
            if r.guard is FALSE:
                ck.add(rule, where, "discharged")
                continue
            kept = reached(I, state_roots(I, s))
            shared = [u for u in mutables(I, r.value) if u.args[0] in kept]
            if not shared:
                ck.add(rule, where, "discharged")
                continue
            before = s.answers()
            for u in shared:
                scramble(I, u)
            compare(ck, s, rule, where, before, s.answers())
        except RecursionError:
            ck.undecided(rule, where, "recursion")
        finally:
            I.restore(snap, True)
