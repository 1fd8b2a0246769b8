"""C26-C28: the dimension packer."""
import terms
from terms import (mk, num, add, sub, mul, neg, ONE, ZERO, TRUE, FALSE, NONE, sym, fact, restrict, and_, or_, not_, lt,
                   le, lift, lift_num, ite, const, is_const, cval, T, unknowns, single_atom)
from interp import exc_name, AnalysisError
from worlds import py, sym_config
from subjects import isolated

SPEC = """
from lsst.skymap.packers import SkyMapDimensionPacker, SkyMapDimensionPackerConfig

def make(fixed, dims, bands, nb, nt, np):
    return SkyMapDimensionPacker(fixed, dims, bands, n_bands=nb, n_tracts=nt, n_patches=np)

def simple(fixed, nt, np):
    return SkyMapDimensionPacker(fixed, n_tracts=nt, n_patches=np)

def mapping(a, b, c):
    return {"x": a, "b": b, "c": c}

def did(s, t, p, b):
    return {"skymap": s, "tract": t, "patch": p, "band": b}

def without(s, t, p):
    return {"skymap": s, "tract": t, "patch": p}

def back(p, d):
    return p.unpack(p.pack(d))

def twice(p, d1, d2):
    p.unpack(p.pack(d1))
    return p.unpack(p.pack(d2))

def change(m, v):
    m["c"] = v
    m["d"] = v
    del m["x"]

def skymap(fixed):
    return fixed["skymap"]

def recorded(fixed):
    r = fixed.records["skymap"]
    return r.tract_max, r.patch_nx_max*r.patch_ny_max

def dims(fixed, band):
    return fixed.universe.conform(["skymap", "tract", "patch"] + (["band"] if band else []))

class Dims:
    def __init__(self, names):
        self.names = names

def given(band, patch, extra):
    names = {"skymap", "tract"}
    if patch:
        names.add("patch")
    if band:
        names.add("band")
    if extra:
        names.add("visit")
    return Dims(names)

def config():
    return SkyMapDimensionPackerConfig()

def from_config(data_id, conf):
    return SkyMapDimensionPacker.from_config(data_id, conf)

def subset(data_id):
    return data_id.subset(data_id.universe.conform(["skymap"]))

def setup(conf, bands, nb, nt, np):
    conf.bands = bands
    conf.n_bands = nb
    conf.n_tracts = nt
    conf.n_patches = np
    return conf

def field():
    return SkyMapDimensionPacker.make_config_field()

def target():
    return SkyMapDimensionPacker.from_config, SkyMapDimensionPacker.ConfigClass
"""

# band numbers of released versions
BANDS = ([None] + list("ugrizyUBGVRIZYJHK") + ["N387", "N515", "N656", "N816", "N921", "N1010", "N419", "N540", "N708",
                                             "N964"])


class Setup:
    """A packer with arbitrary sizes and band mapping."""

    def __init__(self, ck, nb="n", bands="given", sizes="given", tag="", fit=None):
        self.ck, self.I = ck, ck.I
        I = self.I
        self.e = env(ck)
        self.fixed = mk("x", "DataCoordinate", "sym", const("fixed" + tag))
        self.nt, self.np = sym("n_tracts" + tag, "int"), sym("n_patches" + tag, "int")
        fact(self.nt, 1)
        fact(self.np, 1)
        self.ints = [sym("band%d%s" % (i, tag), "int") for i in range(3)]
        if nb == "n":
            self.nb = sym("n_bands" + tag, "int")
            fact(self.nb, 1 if fit is None or bands == "given" else len(BANDS))
        else:
            self.nb = num(nb if nb is not None else 3 if bands == "given" else len(BANDS))
        if fit is not None and bands == "given" and nb != 0:
            # the integer of this band is within the reserved number
            if nb == 1:
                self.ints[fit] = ZERO
            else:
                fact(self.ints[fit], 0, sub(self.nb, ONE))
        self.distinct = TRUE
        for i in range(3):
            for j in range(i):
                self.distinct = and_(self.distinct, not_(terms.eq0(sub(self.ints[i], self.ints[j]))))
        nbarg = NONE if nb is None else self.nb
        self.nbarg = nbarg
        self.mapping = I.run(self.e["mapping"], self.ints).value if bands == "given" else NONE
        self.names = dict(zip("xbc", self.ints)) if bands == "given" else {b: num(i) for i, b in enumerate(BANDS)}
        self.label = "n_bands %s, bands %s" % ({"n": "given"}.get(nb, nb), bands)
        args = [self.fixed, NONE, self.mapping, nbarg, self.nt, self.np]
        if sizes == "record":
            args[4:] = [NONE, NONE]
        self.args = args
        r = I.run(self.e["make"], args)
        if r.guard is FALSE:
            raise AnalysisError("cannot make a packer: %s" % [exc_name(x) for _, x in r.excs])
        self.packer = r.value
        self.cls = I.obj(self.packer).cls
        self.packed = self.nb is not ZERO

    def where(self, name):
        return "%s [%s]" % (self.ck.where(self.cls, name), self.label)

    def dataid(self, tag, band, inside=True, have=True):
        t, p = sym("tract." + tag, "int"), sym("patch." + tag, "int")
        if inside:
            fact(t, 0, sub(self.nt, ONE))
            fact(p, 0, sub(self.np, ONE))
        s = mk("x", "str", "sym", const("skymap"))
        b = NONE if band is None else const(band)
        d = self.I.run(self.e["did"], [s, t, p, b]) if have else self.I.run(self.e["without"], [s, t, p])
        return d.value, t, p

    def bandok(self, v):
        """The band integer is within the reserved number."""
        return TRUE if not self.packed else and_(lift(le, ZERO, v), lift(lt, v, self.nb))


def env(ck):
    if not hasattr(ck, "packer_env"):
        ck.packer_env = ck.I.spec(SPEC, "packing")
    return ck.packer_env


def setups(ck):
    for nb, bands in (("n", "given"), (0, "given"), (1, "given"), (None, "given"), ("n", "default"), (None, "default"),
                      (0, "default")):
        yield nb, bands


def parts(I, t):
    """The entries of the data id a term stands for."""
    if t.op != "x" or t.args[0] != "DataCoordinate" or t.args[1] != "standardize":
        return None
    out = {}

    def visit(u):
        if u.op == "tup" and len(u.args) == 3 and is_const(u.args[1]) and isinstance(cval(u.args[1]), str):
            out.setdefault(cval(u.args[1]), u.args[2])
            return
        for x in u.args:
            if isinstance(x, T):
                visit(x)
    for x in t.args[2:]:
        if isinstance(x, T):
            visit(x)
    return out


def some(names):
    """Few of many bands, and all of a given mapping."""
    k = list(names)
    return k


# ------------------------------------------------------------------ C26
def c26(ck):
    ck.interp()
    for nb, bands in setups(ck):
        ck.guard("C26", str((nb, bands)), c26_one, ck, nb, bands)
    ck.guard("C26", "mapping", c26_mapping, ck)


def c26_one(ck, nb, bands):
    I = ck.I
    names = list("xbc") if bands == "given" else BANDS
    if nb == 0:
        names = names[:1]
    elif nb == 1 and bands == "default":
        names = names[:1]
    for k, band in enumerate(names):
        snap = I.snapshot()
        try:
            c26_band(ck, nb, bands, k, band)
        finally:
            I.restore(snap)


def c26_band(ck, nb, bands, k, band):
    I = ck.I
    tag = "a%s%s%d" % (nb, bands[0], k)
    s = Setup(ck, nb, bands, tag=tag, fit=k)
    care = s.distinct if bands == "given" and s.packed else TRUE
    mb = I.attr(s.packer, "maxBits")
    if not k:
        ck.no_raise("maxBits can be computed", s.where("maxBits"), mb)
    d, t, p = s.dataid(tag, band)
    r = isolated(I, I.method, s.packer, "pack", d)
    w = s.where("_pack") + ", band %s" % band
    g = and_(care, r.guard)
    ck.eq("packed ids are not negative", w, lift(le, ZERO, r.value), TRUE, g)
    below(ck, s, w, r.value, mb.value, g)
    u = isolated(I, I.run, s.e["back"], [s.packer, d])
    w = s.where("unpack") + ", band %s" % band
    ck.no_raise("what was packed can be unpacked", w, u, care)
    restored(ck, s, w, u.value, t, p, band, and_(care, u.guard))


def below(ck, s, w, packed, mb, care):
    """packed < 2**mb."""
    rule = "packed ids are below 2**maxBits"
    packed, mb = restrict(packed, care), restrict(mb, care)
    if terms.num_const(mb) is not None:
        ck.eq(rule, w, lift(lt, packed, num(2 ** int(terms.num_const(mb)))), TRUE, care)
        return
    a = single_atom(mb) if mb.op == "num" and len(mb.args[0]) == 1 and len(mb.args[0][0][0]) == 1 else None
    if a is not None and a.op == "app" and a.args[0] == "bit_length":
        # 2**bit_length(x) is the least power of two above x
        x = a.args[2]
        if terms.prove_ge0(sub(x, packed)):
            ck.add(rule, w, "discharged")
            return
    # the largest packed id is the number of ids minus one, which needs this
    # many bits; fewer cannot do, more are harmless
    most = sub(mul(mul(s.nt, s.np), s.nb if s.packed else ONE), ONE)
    need = terms.atom(mk("app", "bit_length", "int", most))
    ck.eq(rule, w + ", maxBits at least that of the largest", lift(le, need, mb), TRUE, care)


def restored(ck, s, w, u, t, p, band, care):
    I = ck.I
    rule = "unpacking gives the original data id"
    u = restrict(u, care)
    f = parts(I, u)
    if f is None:
        return ck.undecided(rule, w, "unpack returns %s" % terms.show(u)[:200])
    want = {"tract": t, "patch": p, "skymap": I.run(s.e["skymap"], [s.fixed]).value}
    if s.packed:
        want["band"] = NONE if band is None else const(band)
    for k, v in want.items():
        if k not in f:
            if k != "skymap" or True:
                ck.add(rule, w + ", " + k, "violated", "the data id has no %s" % k) if not unknowns(u) else ck.undecided(
                    rule, w, "not understood")
            continue
        ck.eq(rule, w + ", " + k, f[k], v, care)
    if not s.packed and "band" in f:
        ck.add(rule, w, "violated", "there is a band in the data id")


def c26_mapping(ck):
    """The mapping is copied, and one packer serves any number of data ids."""
    for k, band in enumerate("xbc"):
        c26_changed(ck, k, band)
        for other in "xbc":
            c26_twice(ck, k, band, other)


def c26_changed(ck, k, band):
    I = ck.I
    tag = "m%d" % k
    s = Setup(ck, "n", "given", tag=tag, fit=k)
    d, t, p = s.dataid(tag, band)
    care = s.distinct
    before = isolated(I, I.method, s.packer, "pack", d)
    snap = I.snapshot()
    try:
        I.run(s.e["change"], [s.mapping, sym("changed", "int")])
        r = I.method(s.packer, "pack", d)
        u = I.run(s.e["back"], [s.packer, d])
    finally:
        I.restore(snap)
    w = s.where("__init__") + ", band %s" % band
    ck.eq("later changes to the mapping do not matter", w, r.value, before.value, and_(care, before.guard))
    ck.no_raise("later changes to the mapping do not matter", w, r, and_(care, before.guard))
    restored(ck, s, w, u.value, t, p, band, and_(care, u.guard))


def c26_twice(ck, k, band, other):
    I = ck.I
    tag = "t%d%s" % (k, other)
    s = Setup(ck, "n", "given", tag=tag, fit=k)
    d, t, p = s.dataid(tag, band)
    j = "xbc".index(other)
    if j != k:
        fact(s.ints[j], 0, sub(s.nb, ONE))
        fact(s.nb, 2)
    d2, _, _ = s.dataid(tag + "o", other)
    u = isolated(I, I.run, s.e["twice"], [s.packer, d2, d])
    w2 = s.where("unpack") + ", band %s after %s" % (band, other)
    ck.no_raise("what was packed can be unpacked", w2, u, s.distinct)
    restored(ck, s, w2, u.value, t, p, band, and_(s.distinct, u.guard))


# ------------------------------------------------------------------ C27
def c27(ck):
    ck.interp()
    for nb, bands in setups(ck):
        ck.guard("C27", str((nb, bands)), c27_one, ck, nb, bands)


def c27_one(ck, nb, bands):
    I = ck.I
    s = Setup(ck, nb, bands, tag="r%s%s" % (nb, bands[0]))
    names = list(s.names.items())
    if bands == "default":
        names = names[:3] + names[-2:]
    names += [("no such band", None)]
    w = s.where("_pack")
    tag = "r%s%s" % (nb, bands[0])
    for band, v in names:
        d, t, p = s.dataid(tag, band, inside=False)
        good = and_(and_(lift(le, ZERO, t), lift(lt, t, s.nt)), and_(lift(le, ZERO, p), lift(lt, p, s.np)))
        if s.packed:
            good = and_(good, s.bandok(v)) if v is not None else FALSE
        r = isolated(I, I.method, s.packer, "pack", d)
        wb = w + ", band %s" % band
        ck.eq("a data id that does not fit is refused with ValueError", wb, r.raised("ValueError"), TRUE, not_(good))
        ck.eq("a data id that fits is packed", wb, r.raised(), FALSE, good)
        ck.eq("nothing else is raised", wb, and_(r.raised(), not_(r.raised("ValueError"))), FALSE)
    if not s.packed:
        d, t, p = s.dataid(tag, "x", inside=True, have=False)
        r = isolated(I, I.method, s.packer, "pack", d)
        ck.eq("without bands a data id needs none", w, r.raised(), FALSE)


# ------------------------------------------------------------------ C28
def c28(ck):
    ck.interp()
    for part in (c28_dims, c28_given, c28_record, c28_config, c28_bands, c28_field):
        ck.guard("C28", part.__name__, part, ck)


def same_packer(ck, rule, w, I, a, b, tag, bands=("c", "other")):
    """Two packers answer alike."""
    e = env(ck)
    for q in ("maxBits", "dimensions", "fixed"):
        x, y = I.attr(a, q), I.attr(b, q)
        ck.eq(rule, w + ", " + q, I.freeze(x.value), I.freeze(y.value))
    s = mk("x", "str", "sym", const("skymap"))
    t, p = sym("tract." + tag, "int"), sym("patch." + tag, "int")
    for band in bands:
        d = I.run(e["did"], [s, t, p, NONE if band is None else const(band)]).value
        x, y = isolated(I, I.method, a, "pack", d), isolated(I, I.method, b, "pack", d)
        ck.eq(rule, w + ", pack band %s" % band, x.value, y.value, and_(x.guard, y.guard))
        ck.eq(rule, w + ", pack band %s" % band, x.raised(), y.raised())


def c28_dims(ck):
    I = ck.I
    e = env(ck)
    rule = "band is packed exactly when the number of bands is not zero"
    for nb, bands in setups(ck):
        s = Setup(ck, nb, bands, tag="d%s%s" % (nb, bands[0]))
        got = I.attr(s.packer, "dimensions").value
        want = I.run(e["dims"], [s.fixed, terms.boolc(s.packed)]).value
        ck.eq(rule, s.where("__init__"), names_of(I.freeze(got)), names_of(I.freeze(want)))


def names_of(t):
    """Dimension names of a conform(...) term, with those they imply."""
    if t.op == "x" and t.args[1] == "conform":
        ns = {cval(u) for u in terms.all_atoms(t.args[3]) if is_const(u) and isinstance(cval(u), str)}
        if ns & {"tract", "patch"}:
            ns |= {"skymap"}
        if "patch" in ns:
            ns |= {"tract"}
        return mk("tup", "names", *[const(n) for n in sorted(ns)])
    return t


def c28_given(ck):
    I = ck.I
    e = env(ck)
    n = sym("n_bands.given", "int")
    fact(n, 1)
    for band in (True, False):
        for patch in (True, False):
            for extra in (True, False):
                dims = I.run(e["given"], [terms.boolc(x) for x in (band, patch, extra)]).value
                for nb, nbt in (("None", NONE), ("0", ZERO), ("given", n)):
                    s = Setup(ck, "n", "given", tag="g")
                    args = [s.fixed, dims, s.mapping, nbt, s.nt, s.np]
                    r = isolated(I, I.run, e["make"], args)
                    right = patch and not extra and not (band and nb == "0")
                    w = "%s [dimensions %s, n_bands %s]" % (ck.where(s.cls, "__init__"), "+".join(
                        x for x, y in (("skymap+tract", True), ("patch", patch), ("band", band), ("visit", extra))
                        if y), nb)
                    if not right:
                        ck.eq("inconsistent dimensions are refused with ValueError", w, r.raised("ValueError"), TRUE)
                        continue
                    ck.no_raise("consistent dimensions are accepted", w, r)
                    r = I.run(e["make"], args)
                    ck.eq("given dimensions are kept", w, I.attr(r.value, "dimensions").value, dims)
                    other = I.run(e["make"], [s.fixed, NONE, s.mapping, ZERO if not band else num(3) if nb == "None"
                                              else nbt, s.nt, s.np])
                    rule = "band is packed exactly when the dimensions include it"
                    t, p = sym("tract.g", "int"), sym("patch.g", "int")
                    fact(t, 0, sub(s.nt, ONE))
                    fact(p, 0, sub(s.np, ONE))
                    sk = mk("x", "str", "sym", const("skymap"))
                    d = I.run(e["did"], [sk, t, p, const("c")]).value
                    x, y = (isolated(I, I.method, z.value, "pack", d) for z in (r, other))
                    ck.eq(rule, w, x.value, y.value, and_(x.guard, y.guard))
                    ck.eq(rule, w, x.raised(), y.raised())
                    ck.eq(rule, w, I.attr(r.value, "maxBits").value, I.attr(other.value, "maxBits").value)


def c28_record(ck):
    I = ck.I
    e = env(ck)
    rule = "sizes not given come from the sky map record"
    for nb in ("n", 0):
        s = Setup(ck, nb, "given", tag="s%s" % nb)
        nt, np_ = I.unpack(I.run(e["recorded"], [s.fixed]).value, 2, [False])
        for label, a, b in (("neither given", [NONE, NONE], [nt, np_]), ("tracts given", [s.nt, NONE], [s.nt, np_]),
                            ("patches given", [NONE, s.np], [nt, s.np])):
            x = I.run(e["make"], s.args[:4] + a)
            y = I.run(e["make"], s.args[:4] + b)
            same_packer(ck, rule, s.where("__init__") + ", " + label, I, x.value, y.value, "s%s" % nb)


def c28_config(ck):
    I = ck.I
    e = env(ck)
    rule = "from_config passes on every configured value"
    did = mk("x", "DataCoordinate", "sym", const("data_id"))
    fixed = I.run(e["subset"], [did]).value
    s = Setup(ck, "n", "given", tag="f")
    k = 0
    for bands in (s.mapping, NONE):
        for nb in (s.nb, NONE, ZERO, ONE):
            for nt, np_ in ((s.nt, s.np), (NONE, NONE), (s.nt, NONE), (NONE, s.np)):
                k += 1
                conf = I.run(e["setup"], [I.run(e["config"], []).value, bands, nb, nt, np_]).value
                r = I.run(e["from_config"], [did, conf])
                w = "%s [bands %s, n_bands %s, n_tracts %s, n_patches %s]" % (
                    ck.where(s.cls, "from_config"), *["None" if z is NONE else "given" if z.op != "num" or
                                                      terms.num_const(z) is None else terms.show(z)
                                                      for z in (bands, nb, nt, np_)])
                ck.no_raise(rule, w, r)
                if r.guard is FALSE:
                    continue
                y = I.run(e["make"], [fixed, NONE, bands, nb, nt, np_])
                same_packer(ck, rule, w, I, r.value, y.value, "f", ("c", "other", "u"))
    conf = I.run(e["config"], []).value
    c = I.obj(conf).cls
    for n, v in (("bands", NONE), ("n_bands", ZERO), ("n_tracts", NONE), ("n_patches", NONE)):
        ck.eq("default configuration values are fixed", "%s.%s" % (ck.where(c), n), I.attr(conf, n).value, v)


def c28_bands(ck):
    I = ck.I
    s = Setup(ck, None, "default", tag="b")
    y = Setup(ck, "n", "default", tag="b")
    rule = "built-in band numbers do not change"
    for i, band in enumerate(BANDS):
        d, t, p = y.dataid("b", band)
        r = isolated(I, I.method, y.packer, "pack", d)
        want = add(mul(num(i), mul(y.np, y.nt)), add(mul(y.np, t), p))
        ck.eq(rule, "%s, band %s" % (ck.where(y.cls, "SUPPORTED_FILTERS"), band), r.value, want,
              lift(lt, num(i), y.nb))
    # all of them are packed by default
    a = I.run(env(ck)["simple"], [s.fixed, s.nt, s.np])
    same_packer(ck, "all built-in bands are packed when nothing else is said", s.where("__init__"), I, a.value,
                s.packer, "b", ("u", None, "N964", "other"))


def c28_field(ck):
    """The configuration field builds packers with from_config."""
    I = ck.I
    e = env(ck)
    r = I.run(e["field"], [])
    cls = [c for c in I.classes() if c.name == "SkyMapDimensionPacker"][0]
    w = ck.where(cls, "make_config_field")
    ck.no_raise("the configuration field can be made", w, r)
    v = r.value
    if v.op == "py" and hasattr(v.args[0], "kw"):
        t, cc = I.unpack(I.run(e["target"], []).value, 2, [False])
        kw = v.args[0].kw
        ck.eq("the configuration field uses from_config", w, kw.get("target", NONE), t)
        ck.eq("the configuration field has the packer's configuration class", w, kw.get("ConfigClass", NONE), cc)
    else:
        ck.undecided("configuration field", w, "is %s" % terms.show(v)[:100])
