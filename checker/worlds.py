"""Symbolic inputs: configurations, sky maps, tracts, coordinates."""
from terms import (T, mk, const, TRUE, FALSE, NONE, num, sym, atom, seq, seg, batom, fact, ZERO, ONE, restrict,
                   is_const, cval, show, single_atom)
import terms
from interp import Interp, AnalysisError, ClassVal, FuncVal, PropVal, py, exc_name, UNDEF
import models
from models import X

# validity range of numeric configuration fields (values outside are
# rejected or meaningless); by field name, (lo, hi, strictly above lo)
POSITIVE = {"pixelScale"}
NONNEG = {"tractOverlap", "patchBorder", "cellBorder", "numCellsInPatchBorder", "log2NSide"}
ATLEAST1 = {"numTracts", "numRings", "numCellsPerPatchInner"}

MAPS = {"dodeca": "DodecaSkyMap", "equat": "EquatSkyMap", "discrete": "DiscreteSkyMap", "rings": "RingsSkyMap",
        "healpix": "HealpixSkyMap"}
CACHING = ("discrete", "rings", "healpix")
BUILDERS = ("legacy", "cells")


def sym_field(I, owner, n, f, prefix):
    dt = f.kw.get("dtype", NONE)
    dn = dt.args[0].replace("builtins.", "") if dt.op == "ext" else None
    name = prefix + n

    def scalar(nm):
        if dn == "int":
            s = sym(nm, "int")
            if n in ATLEAST1:
                fact(s, 1)
            elif n in NONNEG:
                fact(s, 0)
            return s
        if dn == "float":
            s = sym(nm, "real")
            if n in NONNEG:
                fact(s, 0)
            elif n in POSITIVE:
                fact(s, terms.Fraction(1, 10 ** 9))
            if n == "raStart":
                fact(s, 0, 360)
            return s
        if dn == "bool":
            return batom("config", const(nm))
        if dn == "str":
            r = mk("x", "str", "config", const(nm))
            if n == "projection":
                # FITS projections are named by three letters; anything else
                # is refused (checked separately)
                fact(terms.atom(mk("len", r)), 3, 3)
            return r
        raise AnalysisError("configuration field %s.%s has unknown type" % (owner.name, n))
    if f.kind in ("Field", "RangeField", "ChoiceField"):
        return scalar(name)
    if f.kind == "ListField":
        ln = f.kw.get("length", NONE)
        if ln is not NONE and terms.num_const(ln) is not None:
            k = int(terms.num_const(ln))
            out = []
            for i in range(k):
                s = scalar("%s[%d]" % (name, i))
                if dn == "int":
                    fact(s, 1)
                out.append(s)
            return I.newlist(seq(*[seg(s) for s in out]))
        src = mk("x", "seq", "config", const(name))
        n_ = terms.atom(mk("len", mk("x", "seq", "config", const(prefix + "#"))))
        return I.newlist(mk("symseq", src, {"float": "real", "int": "int"}.get(dn, "any"), n_))
    if f.kind == "DictField":
        return mk("x", "mapping", "config." + name, f.kw.get("itemtype", NONE) if False else const("int"))
    raise AnalysisError("configuration field %s.%s is of unknown kind %s" % (owner.name, n, f.kind))


def sym_config(I, c, prefix="", builder="legacy", overrides=None):
    """A fully symbolic, valid configuration of class c."""
    o = I.alloc(c)
    for n, f in I.models.config_fields(I, c).items():
        if overrides and prefix + n in overrides:
            v = overrides[prefix + n]
            v = v(I) if callable(v) else v
            if not isinstance(v, T):
                v = sym_field(I, c, n, f, prefix)
        elif f.kind == "RegistryField":
            v = I.models.make_regfield(I, f, const(builder),
                                       lambda cc, k: sym_config(I, cc, prefix + n + "." + k + ".", builder,
                                                                overrides))
        else:
            v = sym_field(I, c, n, f, prefix)
        I.obj(o).fields[n] = v
    return o


def square(I):
    """Two equal positive integers."""
    c = sym("cellSize", "int")
    fact(c, 1)
    return I.newlist(seq(seg(c), seg(c)))


def positive(name):
    s = sym(name, "real")
    fact(s, terms.Fraction(1, 10 ** 9))
    return s


def usual(prefix=""):
    """Valid configurations: square cells, some overlap."""
    return {prefix + "tractBuilder.cells.cellInnerDimensions": square,
            prefix + "tractOverlap": lambda I: positive(prefix + "tractOverlap")}


def no_overlap(prefix=""):
    d = usual(prefix)
    d[prefix + "tractOverlap"] = lambda I: ZERO
    return d


def settle(I, nid0, guard):
    """Keep only what holds when the construction succeeded."""
    if guard is TRUE:
        return
    for i in range(nid0 + 1, I.nid + 1):
        o = I.heap.get(i)
        if o is not None:
            for k, v in o.fields.items():
                o.fields[k] = restrict(v, guard)


class World:
    """One sky map over a symbolic configuration."""

    def __init__(self, I, kind, builder="legacy", version=None, prefix="", config=None, overrides=None):
        self.I, self.kind, self.builder, self.version = I, kind, builder, version
        self.cls = I.cls(MAPS[kind])
        cc = I.getattr(py(self.cls), "ConfigClass", None)
        self.nid0 = I.nid
        if overrides is None:
            overrides = usual(prefix)
        self.config = config or sym_config(I, cc.args[0], prefix, builder, overrides)
        args = [self.config] + ([num(version)] if version is not None else [])
        self.res = I.run(py(self.cls), args)
        self.map = self.res.value
        if self.res.guard is FALSE or self.map.op != "obj":
            raise AnalysisError("%s cannot be constructed: %s" % (self.cls.name, self.res.excs))
        settle(I, self.nid0, self.res.guard)
        self.builder_obj = None

    def name(self):
        return "%s/%s%s" % (self.kind, self.builder, "" if self.version is None else "/v%d" % self.version)

    def len(self):
        return self.I.run(mk("ext", "builtins.len"), [self.map], node=None).value

    def tract(self, idx):
        """(Result, tract) of map[idx]."""
        return self.I.run(item, [], {}) if False else getitem(self.I, self.map, idx)


def getitem(I, o, *k):
    """Result of o[k]."""
    from interp import Result
    saveG, I.G = I.G, TRUE
    saveE, I.excs = I.excs, [[]]
    try:
        v = I.getitem(o, k[0], None)
        g, ex = I.G, I.excs[-1]
    finally:
        I.G, I.excs = saveG, saveE
    return Result(restrict(v, g) if g is not FALSE else v, g, ex)


def coord(name="coord"):
    """An arbitrary sky position."""
    return mk("x", "SpherePoint", "sym", const(name))


def index_in(name, n):
    """An arbitrary index 0 <= i < n."""
    s = sym(name, "int")
    fact(s, 0, terms.sub(n, ONE))
    return s


class Tract:
    """A tract made directly from its public constructor, with arbitrary
    id, center, vertices, overlap, WCS and builder configuration."""

    def __init__(self, I, cls="TractInfo", builder="legacy", overlap="positive", tag="", corners=False):
        self.I, self.builder_kind = I, builder
        self.kind = "%s(%s%s)" % (cls, builder, "" if overlap == "positive" else ", no overlap")
        conf, self.bcls = builder_classes(I, builder)
        p = tag + "tractBuilder.%s." % builder
        self.config = sym_config(I, conf, p, builder, usual(tag))
        self.builder = I.run(py(self.bcls), [self.config]).value
        self.id = sym(tag + "id", "int")
        self.ctr = coord(tag + "center")
        self.wcs = mk("x", "SkyWcs", "sym", const(tag + "wcs"))
        self.zero = overlap != "positive"
        self.overlap = mk("ang", positive(tag + "overlap") if overlap == "positive" else ZERO)
        n = terms.atom(mk("len", mk("x", "seq", "config", const(tag + "#v"))))
        fact(n, 1)
        self.vertices = mk("symseq", mk("x", "seq", "config", const(tag + "vertices")), "sp", n)
        self.cls = I.cls(cls)
        kw = {}
        self.corners = None
        if corners:
            self.corners = [coord(tag + "corner1"), coord(tag + "corner2")]
            kw["innerBoxCorners"] = I.newlist(seq(*[seg(x) for x in self.corners]))
            self.kind += " with inner box corners"
        if cls == "ExplicitTractInfo":
            self.radius = mk("ang", positive(tag + "radius"))
            args = [self.id, self.builder, self.ctr, self.radius, self.overlap, self.wcs]
        else:
            args = [self.id, self.builder, self.ctr, self.vertices, self.overlap, self.wcs]
        nid0 = I.nid
        self.res = I.run(py(self.cls), args, kw)
        self.tract = self.res.value
        if self.res.guard is FALSE or self.tract.op != "obj":
            raise AnalysisError("%s cannot be constructed: %s" % (cls, [exc_name(e) for _, e in self.res.excs]))
        settle(I, nid0, self.res.guard)

    def name(self):
        return self.kind


def builder_classes(I, name):
    """(configuration class, class) registered under a name."""
    for m in I.modules.values():
        v = m.env.get("tractBuilderRegistry")
        if v is not None and v.op == "py" and hasattr(v.args[0], "items"):
            a, b = v.args[0].items[name]
            x, y = a.args[0], b.args[0]
            # (configuration, target) in either order
            if "ConfigClass" in y.attrs or y.lookup("ConfigClass")[0] is not None:
                return x, y
            return y, x
    raise AnalysisError("no tract builder registry")
