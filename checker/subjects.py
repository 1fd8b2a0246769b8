"""The tracts, patches and cells whose accessors the rules compare."""
import terms
from terms import mk, num, add, sub, mul, ONE, ZERO, TRUE, sym, fact, restrict
from interp import exc_name
from worlds import World, Tract, MAPS, BUILDERS, getitem, index_in
import worlds


class Subject:
    """A tract (or a map's tract) with its builder configuration."""

    def __init__(self, ck, label, tract, conf, bkind, src, tag):
        self.ck, self.I, self.label, self.tract, self.bkind, self.src = ck, ck.I, label, tract, bkind, src
        self.tag = tag
        I = self.I
        self.cls = I.obj(tract).cls
        f = I.obj(conf).fields
        if bkind == "legacy":
            a, b = I.unpack(f["patchInnerDimensions"], 2, [False])
            self.dx, self.dy, self.border = a, b, f["patchBorder"]
        else:
            a, b = I.unpack(f["cellInnerDimensions"], 2, [False])
            self.n, self.m = f["numCellsPerPatchInner"], f["numCellsInPatchBorder"]
            self.cx, self.cy, self.cb = a, b, f["cellBorder"]
            self.dx, self.dy = mul(a, self.n), mul(b, self.n)
            self.border = add(mul(self.m, a), self.cb)
            self.ncx = self.ncy = add(self.n, mul(num(2), self.m))
        r = self.get("getNumPatches")
        self.nx, self.ny = I.unpack(r.value, 2, [False])

    def abstract(self, nid0):
        """Treat the numbers of patches as arbitrary positive integers and
        the WCS as an arbitrary one.

        Sound as every rule below holds for all such numbers; that they are
        positive and what they are is an obligation of C15.  Only what was
        created with the tract (after nid0) is rewritten.
        """
        m = {}
        self.rawnx, self.rawny = self.nx, self.ny
        for nm in ("nx", "ny"):
            v = getattr(self, nm)
            if v.op != "num":
                continue
            items = [(mono, c) for mono, c in v.args[0] if mono]
            c0 = sum([c for mono, c in v.args[0] if not mono])
            if len(items) != 1 or len(items[0][0]) != 1 or items[0][0][0][1] != 1 or abs(items[0][1]) != 1:
                continue
            a, c = items[0][0][0][0], items[0][1]
            if a in m or a.op == "sym":
                continue
            S = sym(nm + "." + self.tag, "int")
            fact(S, 1)
            m[a] = mul(num(c), sub(S, num(c0)))
            setattr(self, nm, S)
        I = self.I
        self.rawwcs = w = self.get("getWcs").value
        new = mk("x", "SkyWcs", "sym", terms.const("wcs." + self.tag))
        for i in range(nid0 + 1, I.nid + 1):
            o = I.heap.get(i)
            if o is not None:
                for k, v in o.fields.items():
                    if v is w:
                        o.fields[k] = new
        if m:
            for i in range(nid0 + 1, I.nid + 1):
                o = I.heap.get(i)
                if o is not None:
                    for k, v in o.fields.items():
                        if isinstance(v, terms.T):
                            o.fields[k] = terms.subst(v, m)
        return self

    def get(self, name, *a, **k):
        return self.I.method(self.tract, name, *a, **k)

    def fz(self, v):
        return self.I.freeze(v)

    def where(self, name=None):
        return self.ck.where(self.cls, name)

    def indices(self):
        """Arbitrary valid patch indices x, y (valid where self.care)."""
        out, self.care = [], TRUE
        for nm, n in (("x.", self.nx), ("y.", self.ny)):
            if n.op == "num":
                out.append(index_in(nm + self.tag, n))
            else:
                v = sym(nm + self.tag, "int")
                fact(v, 0)
                self.care = terms.and_(self.care, terms.lift(terms.lt, v, n))
                out.append(v)
        return out

    def size(self):
        """Tract width and height the number of patches implies."""
        return [terms.lift_num(lambda n, d: mul(n, d), n, d) for n, d in ((self.nx, self.dx), (self.ny, self.dy))]

    def pair(self, x, y):
        return mk("tup", "Index2D", x, y)


def box(x0, y0, x1, y1, empty=terms.FALSE):
    return mk("tup", "@Box2I", x0, y0, empty, x1, y1)


def ix(x, y):
    return mk("tup", "Index2D", x, y)


def subclasses(I, name):
    """A class of the package and every class that derives from it."""
    base = I.cls(name)
    return sorted([c for c in I.classes() if base in c.mro()], key=lambda c: c.name)


def generic(ck, overlaps=("positive",), plain=True, corners=False):
    """Tracts from the public constructors, arbitrary arguments."""
    for c in ("TractInfo", "ExplicitTractInfo"):
        for b in BUILDERS:
            for ov in overlaps:
                n0 = ck.I.nid
                t = Tract(ck.I, c, b, ov, tag="%s%s%s%s." % (c[0], b[0], ov[0], "k" if corners else ""),
                          corners=corners)
                s = Subject(ck, t.name(), t.tract, t.config, b, t, "%s%s%s%s" % (c[0], b[0], ov[0], "k" if corners else ""))
                yield s.abstract(n0) if plain else s


def world_list(ck, kinds=None, builders=BUILDERS, overrides=None, versions=(1,)):
    for kind in kinds or MAPS:
        for b in builders:
            for v in (versions if kind == "rings" else (None,)):
                yield World(ck.I, kind, b, v, overrides=overrides, prefix="%s%s%s." % (kind[0:2], b[0], v if v is not None else ""))


def builder_conf(I, w):
    """Configuration of the active tract builder of a map's config."""
    f = I.obj(w.config).fields["tractBuilder"]
    r = I.attr(f, "active")
    return r.value


def world_subjects(ck, kinds=None, builders=BUILDERS, overrides=None, versions=(1,), plain=True):
    """An arbitrary tract of each map."""
    I = ck.I
    for w in world_list(ck, kinds, builders, overrides, versions):
        tag = "%s%s%s" % (w.kind[:2], w.builder[0], "" if w.version is None else w.version)
        i = index_in("i." + tag, w.len())
        n0 = I.nid if w.kind in worlds.CACHING else w.nid0
        r = getitem(I, w.map, i)
        if r.guard is terms.FALSE:
            ck.undecided("tract", ck.where(w.cls, "__getitem__"), "cannot build a tract")
            continue
        s = Subject(ck, w.name(), r.value, builder_conf(I, w), w.builder, w, tag)
        s.i, s.res, s.world = i, r, w
        yield s.abstract(n0) if plain else s


def subjects(ck, overlaps=("positive",)):
    yield from generic(ck, overlaps)
    yield from world_subjects(ck)


def isolated(I, f, *a, **kw):
    """Result of f, leaving every object that existed before as it was."""
    snap = I.snapshot()
    try:
        return f(*a, **kw)
    finally:
        I.restore(snap)
