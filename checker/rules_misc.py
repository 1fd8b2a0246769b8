"""C25 registration, C29 registries, C30 validation, C35 linkage."""
import terms
from terms import (mk, num, add, sub, mul, ONE, ZERO, TRUE, FALSE, NONE, sym, fact, restrict, and_, or_, not_, const,
                   is_const, cval, batom, T)
from interp import exc_name, AnalysisError, ClassVal, FuncVal, PropVal
from worlds import World, MAPS, BUILDERS, getitem, index_in, coord, py
import worlds
from rules_maps import uncopied
from rules_hash import at, maps
from subjects import isolated, subclasses

# ------------------------------------------------------------------ C25
# A repository that records what it is given.
REPO = """
import stub
from lsst.skymap.detail.utils import Index2D
from lsst.daf.butler.registry import ConflictingDefinitionError


class Fault(Exception):
    pass


class Repo:
    def __init__(self, conflict, inserted, faults):
        self.conflict, self.inserted = conflict, inserted
        self.faults = faults
        self.open = False
        self.runs, self.types = [], []
        self.skymaps, self.tracts, self.patches, self.puts, self.others = [], [], [], [], []

    def fail(self, kind):
        if self.faults[kind]:
            raise Fault(kind)


class Transaction:
    def __init__(self, repo):
        self.repo = repo

    def __enter__(self):
        self.repo.open = True
        return self

    def __exit__(self, *args):
        self.repo.open = False
        return False


class Registry:
    def __init__(self, repo, dimensions):
        self.repo, self.dimensions = repo, dimensions

    def transaction(self):
        return Transaction(self.repo)

    def registerRun(self, name, doc=None):
        self.repo.runs.append(name)
        return True

    def registerCollection(self, name, type=None, doc=None):
        self.repo.runs.append(name)
        return True

    def registerDatasetType(self, datasetType):
        self.repo.types.append(datasetType)
        return True

    def syncDimensionData(self, element, row, conform=True, update=False):
        r = self.repo
        r.fail("sync")
        if r.conflict:
            raise ConflictingDefinitionError("conflict")
        if element == "skymap":
            r.skymaps.append((row["skymap"], row["hash"], row["tract_max"], row["patch_nx_max"],
                              row["patch_ny_max"], len(row), r.open))
        else:
            r.others.append(element)
        return r.inserted

    def insertDimensionData(self, element, *data, conform=True, replace=False, skip_existing=False):
        r = self.repo
        r.fail(element)
        if element == "tract":
            for row in data:
                r.tracts.append((row["skymap"], row["tract"], row["region"], len(row), r.open))
        elif element == "patch":
            for row in data:
                r.patches.append((row["skymap"], row["tract"], row["patch"], row["cell_x"], row["cell_y"],
                                  row["region"], len(row), r.open))
        else:
            r.others.append(element)


class Collections:
    def __init__(self, repo):
        self.repo = repo

    def register(self, name, type=None, doc=None):
        self.repo.runs.append(name)
        return True


class Butler:
    def __init__(self, repo, dimensions):
        self.repo, self.dimensions = repo, dimensions
        self.registry = Registry(repo, dimensions)
        self.collections = Collections(repo)

    def transaction(self):
        return Transaction(self.repo)

    def put(self, obj, ref, dataId=None, run=None, **kwargs):
        r = self.repo
        r.fail("put")
        if dataId is None:
            dataId = kwargs
        r.puts.append((obj, ref, dataId["skymap"], len(dataId), run, r.open, len(r.tracts), len(r.patches)))


# Arbitrary tracts, with patches row by row.

class Patch:
    def __init__(self, tract, x, y):
        self.tract, self.x, self.y = tract, x, y

    def getIndex(self):
        return Index2D(self.x, self.y)

    def getSequentialIndex(self):
        return self.y*self.tract.nx + self.x

    def getOuterSkyPolygon(self, tractWcs=None):
        if tractWcs is None:
            tractWcs = self.tract.getWcs()
        return stub.outer(self.tract.i, self.x, self.y, tractWcs)

    def getInnerSkyPolygon(self, tractWcs=None):
        if tractWcs is None:
            tractWcs = self.tract.getWcs()
        return stub.inner(self.tract.i, self.x, self.y, tractWcs)

    def getWcs(self):
        return self.tract.getWcs()

    index = property(getIndex)
    sequential_index = property(getSequentialIndex)
    outer_sky_polygon = property(getOuterSkyPolygon)
    inner_sky_polygon = property(getInnerSkyPolygon)
    wcs = property(getWcs)


class Tract:
    def __init__(self, i):
        self.i = i
        self.nx, self.ny = 1 + stub.columns(i), 1 + stub.rows(i)

    def getId(self):
        return self.i

    def getNumPatches(self):
        return Index2D(self.nx, self.ny)

    def getWcs(self):
        return stub.wcs(self.i)

    def getOuterSkyPolygon(self):
        return stub.outer(self.i)

    def getInnerSkyPolygon(self):
        return stub.inner(self.i)

    def getInnerSkyRegion(self):
        return stub.region(self.i)

    def getPatchInfo(self, index):
        if isinstance(index, int):
            return Patch(self, index % self.nx, index//self.nx)
        return Patch(self, index[0], index[1])

    __getitem__ = getPatchInfo

    def getSequentialPatchIndex(self, patchInfo):
        return self.getSequentialPatchIndexFromPair(patchInfo.getIndex())

    def getSequentialPatchIndexFromPair(self, index):
        return index[1]*self.nx + index[0]

    def getPatchIndexPair(self, sequentialIndex):
        return Index2D(sequentialIndex % self.nx, sequentialIndex//self.nx)

    def __len__(self):
        return self.nx*self.ny

    def __iter__(self):
        for y in range(self.ny):
            for x in range(self.nx):
                yield Patch(self, x, y)

    tract_id = property(getId)
    num_patches = property(getNumPatches)
    wcs = property(getWcs)
    outer_sky_polygon = property(getOuterSkyPolygon)
    inner_sky_polygon = property(getInnerSkyPolygon)
    inner_sky_region = property(getInnerSkyRegion)


class Two:
    def __len__(self):
        return 2


class Map:
    def __len__(self):
        return 1 + stub.rows("all tracts")

    def __getitem__(self, index):
        return Tract(index)

    def __iter__(self):
        for i in range(len(self)):
            yield Tract(i)


def make(conflict, inserted, faults, dimensions):
    return Butler(Repo(conflict, inserted, faults), dimensions)


def expected(m, name):
    return (
        [(name, m.getSha1(), len(m), max(t.getNumPatches()[0] for t in m), max(t.getNumPatches()[1] for t in m),
          5, True)],
        [(name, t.getId(), t.getOuterSkyPolygon(), 3, True) for t in m],
        [(name, t.getId(), t.getSequentialPatchIndex(p), p.getIndex()[0], p.getIndex()[1],
          p.getOuterSkyPolygon(t.getWcs()), 6, True) for t in m for p in t],
    )


def names(m):
    return m.SKYMAP_DATASET_TYPE_NAME, m.SKYMAP_RUN_COLLECTION_NAME
"""
KINDS = ("sync", "tract", "patch", "put")


def c25(ck):
    I = ck.interp()
    e = I.spec(REPO, "repository")
    for w in maps(ck):
        for many in ("any number of tracts", "two tracts"):
            snap = I.snapshot()
            ck.guard("C25", w.name(), c25_one, ck, w, e, many)
            I.restore(snap)


def c25_one(ck, w, e, many):
    I = ck.I
    where = "%s [%s, %s]" % (ck.where(w.cls, "register"), w.name(), many)
    name = sym("name." + w.name())
    dims = mk("x", None, "butler.dimensions")
    a = w.cls.attrs
    for k in ("__getitem__", "__iter__", "__len__"):
        a[k] = e["Map"].args[0].attrs[k]
    if many == "two tracts":
        a["__len__"] = e["Two"].args[0].attrs["__len__"]
    # any number of tracts; a map without tracts cannot be summarized
    some = TRUE

    class Run:
        """Registration in a repository that answers in a given way."""

        def __init__(self, conflict=FALSE, inserted=TRUE, fault=None):
            f = I.alloc("dict", d=terms.seq(*[terms.seg(mk("tup", "", const(k), TRUE if k == fault else FALSE))
                                              for k in KINDS]))
            b = I.run(e["make"], [conflict, inserted, f, dims]).value
            self.r = I.method(w.map, "register", name, b)
            self.f = I.obj(I.attr(b, "repo").value).fields

        def got(self, k):
            return uncopied(I.deep(self.f[k]))

        def count(self, k):
            return I.length(self.f[k])
    want = I.run(e["expected"], [w.map, name]).value
    want = [uncopied(I.deep(x)) for x in want.args[1:]]
    dt, rn = I.run(e["names"], [w.map]).value.args[1:]
    # a new sky map
    n = Run()
    care = and_(n.r.guard, some)
    ck.no_raise("registration does not raise", where, n.r, some)
    ck.eq("the sky map record", where, n.got("skymaps"), want[0], care)
    ck.eq("every tract is recorded once", where, n.got("tracts"), want[1], care)
    ck.eq("every patch is recorded once", where, n.got("patches"), want[2], care)
    ck.eq("no other record is written", where, n.count("others"), ZERO, care)
    ck.eq("the sky map is stored once if it is new", where, n.count("puts"), ONE, care)
    p = restrict(I.seq_elem(restrict(I.seqterm(n.f["puts"]), care), ZERO), care)
    if p.op != "tup" or len(p.args) != 9:
        ck.undecided("what is stored is the sky map", where, "not understood: " + terms.show(p)[:100])
    else:
        obj, ref, sky, size, runname, opened, nt, np = p.args[1:]
        ck.eq("what is stored is the sky map", where, obj, w.map, care)
        ck.eq("it is stored under the name", where, sky, name, care)
        ck.eq("it is stored under the name", where + " only", size, ONE, care)
        ck.eq("it is stored in the sky map run", where, runname, rn, care)
        ck.eq("records and sky map are written in one transaction", where, opened, TRUE, care)
        ck.eq("the sky map is stored after all records", where + " of tracts", nt, terms_len(I, want[1]), care)
        ck.eq("the sky map is stored after all records", where + " of patches", np, terms_len(I, want[2]), care)
        ref = restrict(ref, care)
        types = restrict(I.seqterm(n.f["types"]), care)
        ck.eq("the dataset type is registered", where, restrict(I.seq_elem(types, ZERO), care), ref, care)
        kv = {cval(a.args[1]): a.args[2] for a in ref.args[2:]} if ref.op == "x" and ref.args[1] == "DatasetType" else {}
        if kv:
            ck.eq("the dataset type has its name", where, kv.get("name", NONE), dt, care)
            ck.eq("the dataset type has its name", where + " storage class", kv.get("storageClass", NONE),
                  const("SkyMap"), care)
        else:
            ck.undecided("the dataset type has its name", where, "not understood: " + terms.show(ref)[:100])
        runs = restrict(I.seqterm(n.f["runs"]), care)
        ck.eq("the run is registered", where, restrict(I.seq_elem(runs, ZERO), care), rn, care)
    # a known one
    k = Run(inserted=FALSE)
    ck.no_raise("registering a known sky map does not raise", where, k.r, some)
    ck.eq("the sky map record", where + " if known", k.got("skymaps"), want[0], and_(k.r.guard, some))
    for x in ("tracts", "patches", "puts", "others"):
        ck.eq("nothing is recorded for a known sky map", where + " " + x, k.count(x), ZERO, and_(k.r.guard, some))
    # a conflicting one
    k = Run(conflict=TRUE)
    ck.eq("a conflicting definition is reported", where, k.r.raised(CONFLICT, CONFLICT.split(".")[-1]), TRUE, some)
    for x in ("tracts", "patches", "puts", "others"):
        ck.eq("nothing is recorded for a conflicting sky map", where + " " + x, k.count(x), ZERO, some)
    # a failure at any step ends the registration, and the transaction with it
    for kind in KINDS:
        k = Run(fault=kind)
        ck.eq("a failing write ends the registration", "%s, writing %s fails" % (where, kind), k.r.raised("Fault"), TRUE,
              some)


CONFLICT = "lsst.daf.butler.registry.ConflictingDefinitionError"


def terms_len(I, t):
    return I.seq_len(t)


# ------------------------------------------------------------------ C30
ACT = """
def validate(c):
    c.validate()

def set_dimensions(c, v):
    c.patchInnerDimensions = v

def set_border(c, v):
    c.patchBorder = v

def call_dimensions(c, v):
    c.setPatchInnerDimensions(v)

def call_border(c, v):
    c.setPatchBorder(v)
"""


def config_class(I, kind):
    return I.getattr(py(I.cls(MAPS[kind])), "ConfigClass", None).args[0]


def a_config(I, kind, builder, **values):
    """The default configuration but for some values."""
    c = config_class(I, kind)
    o = I.models.make_default_config(I, c, {})
    f = I.obj(o).fields
    if kind == "rings" and "numRings" in f and f["numRings"] is NONE:
        f["numRings"] = num(3)
    I.setf(f["tractBuilder"], "name", const(builder))
    for k, v in values.items():
        t = o
        if "__" in k:
            b, k = k.split("__")
            t = I.getf(f["tractBuilder"], "cfg:" + b)
        if k not in I.obj(t).fields:
            raise AnalysisError("no field " + k)
        I.obj(t).fields[k] = v
    return o


def any_list(I, tag, kind="real"):
    """A list of arbitrary length, and its length."""
    n = terms.atom(mk("len", mk("x", "seq", "config", const(tag))))
    fact(n, 0)
    return I.newlist(mk("symseq", mk("x", "seq", "config", const(tag)), kind, n)), n


def pair(I, a, b):
    return I.newlist(terms.seq(terms.seg(a), terms.seg(b)))


def c30(ck):
    I = ck.interp()
    e = I.spec(ACT, "c30")
    rule = "invalid configurations are refused"
    okay = "valid configurations are accepted"

    def where(kind, what):
        return "%s [%s]" % (ck.where(config_class(I, kind)), what)

    def verdict(kind, builder, what, bad, care=TRUE, **values):
        """The configuration is refused exactly if `bad`, wherever care holds."""
        def go():
            snap = I.snapshot()
            try:
                c = a_config(I, kind, builder, **values)
                r = I.run(e["validate"], [c])
                w = where(kind, what + ", " + builder)
                odd = [x for _, x in r.excs if exc_name(x) in ("TypeError", "AttributeError", "NameError")]
                ck.eq(okay if bad is FALSE else rule, w, not_(r.guard), bad, care)
                if odd:
                    ck.no_raise(okay, w, r, care, names=("TypeError", "AttributeError", "NameError"))
            finally:
                I.restore(snap, True)
        ck.guard(rule, where(kind, what), go)

    ne = lambda a, b: not_(terms.eq0(sub(a, b)))
    for kind in MAPS:
        t = "c30." + kind + "."
        for b in BUILDERS:
            verdict(kind, b, "defaults", FALSE)
        c = sym(t + "cell", "int")
        fact(c, 1)
        d = sym(t + "cell2", "int")
        fact(d, 1)
        verdict(kind, "cells", "cellInnerDimensions of two integers", ne(c, d), cells__cellInnerDimensions=pair(I, c, d))
        x, n = any_list(I, t + "cells", "int")
        verdict(kind, "cells", "cellInnerDimensions of any length", TRUE, ne(n, num(2)), cells__cellInnerDimensions=x)
        x, n = any_list(I, t + "patch", "int")
        verdict(kind, "legacy", "patchInnerDimensions of any length", TRUE, ne(n, num(2)), legacy__patchInnerDimensions=x)
        verdict(kind, "legacy", "patchInnerDimensions of two integers", FALSE, legacy__patchInnerDimensions=pair(I, c, d))
        p = sym(t + "border", "int")
        fact(p, 0)
        verdict(kind, "legacy", "patchBorder", FALSE, legacy__patchBorder=p)
        if kind == "equat":
            x, n = any_list(I, t + "dec")
            lo, hi = sym(t + "lo"), sym(t + "hi")
            fact(lo, -90, 90)
            fact(hi, -90, 90)
            for b in BUILDERS:
                verdict(kind, b, "decRange of any length", TRUE, ne(n, num(2)), decRange=x)
                verdict(kind, b, "decRange of two numbers", FALSE, terms.lt(lo, hi), decRange=pair(I, lo, hi))
        if kind == "rings":
            k, r = sym(t + "n", "int"), sym(t + "ra")
            fact(k, -100, 1000)
            for b in BUILDERS:
                verdict(kind, b, "numRings", terms.le(k, ZERO), numRings=k)
                verdict(kind, b, "raStart", or_(terms.lt(r, ZERO), terms.le(num(360), r)), raStart=r)
        if kind == "discrete":
            (x, n), (y, m), (z, k) = [any_list(I, t + q) for q in ("ra", "dec", "radius")]

            def of(q, n):
                return I.newlist(mk("symseq", mk("x", "seq", "config", const(t + q)), "real", n))
            for b in BUILDERS:
                verdict(kind, b, "raList of another length", TRUE, ne(n, m), raList=x, decList=y, radiusList=of("z", m))
                verdict(kind, b, "decList of another length", TRUE, ne(n, m), raList=x, decList=y, radiusList=of("z", n))
                verdict(kind, b, "radiusList of another length", TRUE, ne(n, m), raList=x, decList=of("z", n), radiusList=y)
                verdict(kind, b, "lists of three lengths", TRUE, and_(ne(n, m), ne(n, k), ne(m, k)), raList=x, decList=y,
                        radiusList=z)
                ra, de, ra2, de2, s, u = [sym(t + q) for q in ("a", "d", "a2", "d2", "s", "u")]
                for q in (ra, ra2):
                    fact(q, 0, 359)
                for q in (de, de2):
                    fact(q, -90, 90)
                for q in (s, u):
                    fact(q, terms.Fraction(1, 1000), 90)
                verdict(kind, b, "lists of two values", FALSE, raList=pair(I, ra, ra2), decList=pair(I, de, de2),
                        radiusList=pair(I, s, u))
                # inherited: the tract builder's
                verdict(kind, "cells", "matching lists, cells that are not square", ne(c, d), raList=pair(I, ra, ra2),
                        decList=pair(I, de, de2), radiusList=pair(I, s, u), cells__cellInnerDimensions=pair(I, c, d))
    # the older names
    for kind in MAPS:
        for b in BUILDERS:
            ck.guard("older names", where(kind, b), c30_names, ck, kind, b, e)


def c30_names(ck, kind, b, e):
    I = ck.I
    cls = config_class(I, kind)
    t = "c30n." + kind + b
    x, y, p = sym(t + "x", "int"), sym(t + "y", "int"), sym(t + "p", "int")
    for s in (x, y, p):
        fact(s, 1)

    def legacy(c, k):
        return I.getf(I.getf(I.obj(c).fields["tractBuilder"], "cfg:legacy"), k)

    def rest(c, k):
        out = []
        for n, v in sorted(I.obj(c).fields.items()):
            if n == "tractBuilder":
                for m, u in sorted(I.obj(v).fields.items()):
                    if m.startswith("cfg:"):
                        out += [("%s.%s" % (m, q), I.deep(w)) for q, w in sorted(I.obj(u).fields.items())
                                if (m, q) != ("cfg:legacy", k)]
                    elif m != "reg":
                        out.append((m, u))
            else:
                out.append((n, I.deep(v)))
        return out
    # read
    for name, getter, field, val in (("patchInnerDimensions", "getPatchInnerDimensions", "patchInnerDimensions",
                                      lambda: pair(I, x, y)),
                                     ("patchBorder", "getPatchBorder", "patchBorder", lambda: p)):
        for how in (name, getter):
            snap = I.snapshot()
            try:
                c = a_config(I, kind, b, **{"legacy__" + field: val()})
                before = rest(c, None)
                r = I.attr(c, how) if how == name else I.method(c, how)
                w = "%s [%s]" % (ck.where(cls, how), b)
                ck.no_raise("the older names read the legacy values", w, r)
                if field == "patchBorder":
                    ck.eq("the older names read the legacy values", w, r.value, p)
                else:
                    u = I.unpack(r.value, 2, [False])
                    ck.eq("the older names read the legacy values", w + " x", u[0], x)
                    ck.eq("the older names read the legacy values", w + " y", u[1], y)
                for (n, a), (_, d) in zip(before, rest(c, None)):
                    ck.eq("reading an older name changes nothing", w + " " + n, d, a)
            finally:
                I.restore(snap, True)
        short = "dimensions" if field == "patchInnerDimensions" else "border"
        for how in ("set_" + short, "call_" + short):
            snap = I.snapshot()
            try:
                c = a_config(I, kind, b)
                before = rest(c, field)
                r = I.run(e[how], [c, val()])
                w = "%s [%s]" % (ck.where(cls, "set" + field[0].upper() + field[1:]), b)
                ck.no_raise("the older names set the legacy values", w, r)
                if field == "patchBorder":
                    ck.eq("the older names set the legacy values", w, legacy(c, field), p)
                else:
                    u = I.unpack(legacy(c, field), 2, [False])
                    ck.eq("the older names set the legacy values", w + " x", u[0], x)
                    ck.eq("the older names set the legacy values", w + " y", u[1], y)
                for (n, a), (_, d) in zip(before, rest(c, field)):
                    ck.eq("setting an older name changes nothing else", w + " " + n, d, a)
            finally:
                I.restore(snap, True)
