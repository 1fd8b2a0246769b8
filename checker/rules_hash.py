"""C05-C08: identity hash, equality, pickling."""
import struct

import terms
from terms import (mk, num, add, sub, mul, neg, ONE, ZERO, TRUE, FALSE, NONE, sym, fact, restrict, and_, or_, not_, lt,
                   le, lift, lift_num, ite, const, is_const, cval, T, unknowns)
from interp import exc_name, AnalysisError
from worlds import World, getitem, index_in, coord, CACHING, sym_config, py, builder_classes, usual
import worlds
from subjects import isolated, builder_conf
from rules_maps import QUANTITIES, uncopied

VERSIONS = {"rings": (1, 0), "healpix": (3,), "discrete": (3,)}


def maps(ck, versions=None, prefix="", builders=worlds.BUILDERS):
    for kind in worlds.MAPS:
        for b in builders:
            for v in (versions or VERSIONS).get(kind, (None,)):
                yield World(ck.I, kind, b, v, prefix="%s%s%s." % (prefix, kind[:2], b[0]))


def cases(t, g=TRUE):
    """The alternatives of a value."""
    if g is FALSE:
        return
    if t.op == "ite":
        c = mk("ite", t.args[0], TRUE, FALSE)
        yield from cases(t.args[1], and_(g, c))
        yield from cases(t.args[2], and_(g, not_(c)))
    else:
        yield g, t


# ------------------------------------------------------------------ layout
LAYOUT = """
import hashlib
import struct

def common(conf):
    return struct.pack("<dd3sd", conf.tractOverlap, conf.pixelScale, conf.projection.encode("ascii"), conf.rotation)

def legacy(sub):
    return struct.pack("<iii", sub.patchInnerDimensions[0], sub.patchInnerDimensions[1], sub.patchBorder)

def cells(sub):
    return struct.pack("<iiiii", sub.cellInnerDimensions[0], sub.cellInnerDimensions[1], sub.cellBorder,
                       sub.numCellsPerPatchInner, sub.numCellsInPatchBorder)

def dodeca(conf):
    return b"DodecaSkyMap", struct.pack("<?", conf.withTractsOnPoles)

def equat(conf):
    return b"EquatSkyMap", struct.pack("<idd", conf.numTracts, conf.decRange[0], conf.decRange[1])

def discrete(conf):
    n = len(conf.radiusList)
    f = "<{}d".format(n)
    return (b"DiscreteSkyMap", struct.pack(f, *conf.raList) + struct.pack(f, *conf.decList)
            + struct.pack(f, *conf.radiusList))

def healpix(conf):
    return b"HealpixSkyMap", struct.pack("<i?", conf.log2NSide, conf.nest)

def rings(conf):
    return b"RingsSkyMap", struct.pack("<id", conf.numRings, conf.raStart)

def digest(conf, parts, builder):
    sub = conf.tractBuilder[conf.tractBuilder.name]
    name, own = parts(conf)
    return hashlib.sha1(name + builder(sub) + common(conf) + own).digest()

def ask(m, i, c):
    m[i]
    len(m)
    hash(m)
    m == m
    return m.getSha1()
"""


def layout(ck):
    if not hasattr(ck, "layout_env"):
        ck.layout_env = ck.I.spec(LAYOUT, "layout")
    return ck.layout_env


def at(ck, w, name):
    return "%s [%s]" % (ck.where(w.cls, name), w.name())


def c06(ck):
    I = ck.I
    e = layout(ck)
    for w in maps(ck):
        ck.guard("C06", w.name(), c06_one, ck, w, e)
    ck.guard("C06", "defaults", c06_defaults, ck)


def c06_one(ck, w, e):
    I = ck.I
    r = I.method(w.map, "getSha1")
    ck.no_raise("the hash can be computed", at(ck, w, "getSha1"), r)
    want = I.run(e["digest"], [w.config, e[w.kind], e[w.builder]]).value
    rule = "the hashed bytes are the registered layout"
    where = "%s [%s]" % (ck.where(w.cls, "updateSha1"), w.name())
    if not same_digest(ck, rule, where, r.value, want, r.guard):
        return
    again = I.method(w.map, "getSha1")
    ck.eq("the hash stays the same", at(ck, w, "getSha1"), again.value, r.value)
    # a second map of the same configuration, asked after it has been used
    w2 = World(I, w.kind, w.builder, w.version, config=w.config)
    i = index_in("i.c06" + w.kind + w.builder, w2.len())
    r2 = isolated(I, I.run, e["ask"], [w2.map, i, coord("c.c06")])
    ck.eq("the hash does not depend on earlier use", at(ck, w, "getSha1"), r2.value, want, r2.guard)


def parts_of(d):
    """The pieces of the bytes a digest is taken of."""
    if d.op == "x" and d.args[1] == "digest" and d.args[3].op == "bytes":
        return list(d.args[3].args)
    return None


def flat(parts):
    """Pieces with literal bytes joined and cut at each byte."""
    out = []
    for p in parts:
        if is_const(p) and isinstance(cval(p), bytes):
            out.extend(bytes([b]) for b in cval(p))
        elif p.op == "pk" and is_const(p.args[2]) if p.op == "pk" and len(p.args) > 2 else False:
            v = cval(p.args[2])
            out.append(p)
        else:
            out.append(p)
    return out


def same_digest(ck, rule, where, got, want, care):
    """Digests are of the same bytes."""
    got = restrict(got, care)
    if got is want:
        return ck.add(rule, where, "discharged")
    good = True
    for g, d in cases(got, care):
        a, b = parts_of(d), parts_of(want)
        if a is None or unknowns(d):
            # the value is not the digest of a sequence of known pieces
            good = ck.undecided(rule, where, "not understood: %s" % terms.show(d)[:200])
            continue
        if d.args[2] is not want.args[2]:
            good = ck.add(rule, where, "violated", "uses %s" % terms.show(d.args[2]))
            continue
        a, b = flat(a), flat(b)
        bad = None
        for k in range(max(len(a), len(b))):
            x, y = (a[k] if k < len(a) else None), (b[k] if k < len(b) else None)
            if x is y or x == y:
                continue
            bad = (k, x, y)
            break
        if bad is None:
            ck.add(rule, where, "discharged")
            continue
        k, x, y = bad
        sh = lambda z: "nothing" if z is None else repr(z) if isinstance(z, bytes) else terms.show(z)[:160]
        if isinstance(x, T) and isinstance(y, T) and x.op == y.op == "pk" and x.args[:2] == y.args[:2] and len(x.args) == 3:
            good = ck.eq(rule, where, x.args[2], y.args[2], g, what="item %d" % k)
            continue
        if isinstance(x, T) and x.op not in ("pk", "pks"):
            good = ck.undecided(rule, where, "piece %d: %s" % (k, sh(x)))
            continue
        good = ck.add(rule, where, "violated", "piece %d of the hashed bytes is %s, not %s" % (k, sh(x), sh(y)))
    return good


DEFAULTS = {
    "dodeca": {"withTractsOnPoles": False, "tractOverlap": 3.5, "pixelScale": 0.2},
    "equat": {"numTracts": 4, "decRange": [-1.25, 1.25], "projection": "CEA"},
    "discrete": {"raList": [], "decList": [], "radiusList": []},
    "healpix": {"log2NSide": 0, "nest": False, "rotation": 45.0},
    "rings": {"numRings": None, "raStart": 0.0},
}
COMMON = {"tractOverlap": 1.0, "pixelScale": 0.333, "projection": "STG", "rotation": 0.0}
BUILDER = {
    "legacy": {"patchInnerDimensions": [4000, 4000], "patchBorder": 100},
    "cells": {"cellInnerDimensions": [150, 150], "cellBorder": 50, "numCellsPerPatchInner": 20,
              "numCellsInPatchBorder": 1},
}


def plain(I, v):
    """Python value of a constant term, or None."""
    if v is TRUE or v is FALSE:
        return v is TRUE
    if v.op == "num":
        c = terms.num_const(v)
        return None if c is None else float(c)
    if is_const(v):
        return cval(v)
    st = I.seqterm(v)
    if st is not None and st.op == "seq":
        out = []
        n = terms.num_const(I.seq_len(st))
        if n is None:
            return None
        for k in range(int(n)):
            out.append(plain(I, I.seq_elem(st, num(k))))
        return out
    return None


def c06_defaults(ck):
    I = ck.I
    rule = "default values are fixed"
    for kind, name in worlds.MAPS.items():
        cls = I.cls(name)
        cc = I.getattr(py(cls), "ConfigClass", None)
        o = I.run(cc, []).value
        want = dict(COMMON)
        want.update(DEFAULTS[kind])
        fields = I.obj(o).fields
        where = ck.where(cc.args[0])
        compare(ck, rule, where, fields, want)
        tb = fields.get("tractBuilder")
        if tb is not None:
            nm = I.attr(tb, "name").value
            ck.eq(rule, where + ".tractBuilder", nm, const("legacy"))
            want = dict(BUILDER["legacy"])
            if kind == "dodeca":
                want["patchBorder"] = 250
            compare(ck, rule, where + ".tractBuilder", I.obj(I.attr(tb, "active").value).fields, want)
    for b in worlds.BUILDERS:
        conf, cls = builder_classes(I, b)
        o = I.run(py(conf), []).value
        compare(ck, rule, ck.where(conf), I.obj(o).fields, BUILDER[b])


def compare(ck, rule, where, fields, want):
    for n, v in want.items():
        w = "%s.%s" % (where, n)
        if n not in fields:
            ck.add(rule, w, "violated", "there is no such parameter")
            continue
        g = plain(ck.I, fields[n])
        if g is None and fields[n] is not NONE:
            ck.undecided(rule, w, "not constant: %s" % terms.show(fields[n])[:100])
            continue
        if isinstance(v, list):
            same = isinstance(g, list) and len(g) == len(v) and all(close(x, y) for x, y in zip(g, v))
        else:
            same = close(g, v)
        ck.ok(rule, w, same, "is %r, not %r" % (g, v))


def close(x, y):
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(y, bool):
        return float(x) == float(y)
    return x == y


# ------------------------------------------------------------------ C05
WIDE = {"int": ("i", "q", "l"), "float": ("d",), "bool": ("?", "b", "B", "i", "h", "q"), "str": ()}


def components(ck, w):
    """(parameter name, field type, [component values], owner) of everything
    in the configuration and in its active tract builder's."""
    I = ck.I
    for o, pre in ((w.config, ""), (builder_conf(I, w), "tractBuilder.")):
        c = I.obj(o).cls
        for n, f in I.models.config_fields(I, c).items():
            if f.kind == "RegistryField":
                continue
            v = I.obj(o).fields[n]
            dt = f.kw.get("dtype")
            dn = dt.args[0].split(".")[-1] if dt is not None and dt.op == "ext" else "?"
            st = I.seqterm(v)
            if st is None:
                yield pre + n, dn, [v], c
            elif st.op == "symseq":
                yield pre + n, dn + "s", [st], c
            else:
                k = terms.num_const(I.seq_len(st))
                vs = [I.seq_elem(st, num(i)) for i in range(int(k))]
                out = []
                for x in vs:
                    if x not in out:
                        out.append(x)
                yield pre + n, dn, out, c


def depends(t, on):
    at_ = set(terms.all_atoms(t))
    return on in at_ or any(a in at_ for a in terms.all_atoms(on))


def core(v):
    """The atom that stands for a parameter."""
    if v.op == "num":
        return terms.single_atom(v)
    return v


def mentions(t, v):
    c = core(v)
    if c is None:
        return False
    if t is v or t is c:
        return True
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u is c or u is v:
            return True
        if isinstance(u, T):
            if u in seen:
                continue
            seen.add(u)
            stack.extend(u.args)
        elif isinstance(u, tuple):
            stack.extend(u)
    return False


def c05(ck):
    I = ck.I
    firsts = []
    for w in maps(ck, {"rings": (1,)}):
        ck.guard("C05", w.name(), c05_one, ck, w, firsts)
    rule = "sky maps of different type feed different type names"
    for k, (w, a) in enumerate(firsts):
        for v, b in firsts[:k]:
            if w.cls is not v.cls and w.builder == v.builder:
                ck.ok(rule, "%s and %s" % (at(ck, w, "getSha1"), v.name()), not (a.startswith(b) and len(a) == len(b)),
                      "both feed %r" % a)
    ck.guard("C05", "software version", c05_version, ck)


def c05_one(ck, w, firsts):
    I = ck.I
    r = I.method(w.map, "getSha1")
    where = "%s [%s]" % (ck.where(w.cls, "updateSha1"), w.name())
    alts = list(cases(restrict(r.value, r.guard), r.guard))
    for g, d in alts:
        p = parts_of(d)
        if p is None:
            ck.undecided("hashed bytes", where, "not understood: %s" % terms.show(d)[:200])
            return
    for k, (g, d) in enumerate(alts):
        p = parts_of(d)
        if k == 0 and len(alts) == 1:
            first = b""
            for x in p:
                if not is_const(x):
                    break
                first += cval(x)
            if any(unknowns(x) for x in p[:1]):
                pass
            else:
                firsts.append((w, first))
        c05_items(ck, w, where, g, p)


def c05_items(ck, w, where, g, p):
    I = ck.I
    for name, dt, vals, owner in components(ck, w):
        rule = "every parameter enters the hash unabridged"
        f = "%s, parameter %s" % (where, name)
        for v in vals:
            uses = [x for x in p if mentions(x, v)]
            odd = [x for x in p if unknowns(x)]
            if not uses:
                if odd:
                    ck.undecided(rule, f, "not understood: %s" % terms.show(odd[0])[:200])
                else:
                    ck.add(rule, f, "violated", "the hashed bytes do not depend on %s" % terms.show(v)[:80])
                continue
            res = [enters(ck, x, v, dt, g) for x in uses]
            if any(s == "yes" for s, _ in res):
                ck.add(rule, f, "discharged")
            elif all(s == "no" for s, _ in res):
                ck.add(rule, f, "violated", res[0][1])
            else:
                ck.undecided(rule, f, [t for s, t in res if s != "yes"][0])
    # the pieces can be told apart
    rule = "no two parameter sets are encoded alike"
    var = [x for x in p if x.op == "raw" or x.op == "pks" or x.op not in ("pk", "c") and not is_const(x)]
    if any(unknowns(x) for x in p):
        return
    lens = set()
    for x in var:
        if x.op == "pks":
            lens.add(I.seq_len(x.args[2]))
        else:
            lens.add(x)
    if len(lens) <= 1:
        ck.add(rule, where, "discharged")
    else:
        text = [x for x in var if x.op == "raw"]
        pair = None
        for a, b in zip(p, p[1:]):
            if a.op == "raw" and b.op == "raw":
                pair = (a, b)
        if pair and all(x.op == "pks" or x.op == "raw" for x in var):
            ck.add(rule, where, "violated", "texts of any length follow one another: %s, %s" % tuple(
                terms.show(z)[:80] for z in pair))
        else:
            ck.undecided(rule, where, "several pieces of variable length: %s" % [terms.show(x)[:60] for x in var])


def enters(ck, x, v, dt, g):
    """Whether the bytes x determine the parameter v."""
    sh = terms.show(x)[:120]
    if x.op == "pks":
        if x.args[2] is v:
            return ("yes", "") if x.args[1] == "d" or x.args[1] in WIDE.get(dt[:-1], ()) else (
                "no", "packed as %r" % x.args[1])
        if any(u.op == "sorted" for u in terms.all_atoms(x.args[2])):
            return "no", "in an order that does not depend on the configured one: %s" % sh
        return "maybe", "only as %s" % sh
    if x.op == "raw":
        u = x.args[0]
        return ("yes", "") if u is v or u.op == "x" and u.args[1] == "encode" and u.args[2] is v else ("maybe", sh)
    if x.op != "pk" or len(x.args) != 3:
        return "maybe", sh
    code, u = x.args[1], x.args[2]
    if dt == "str":
        if code[-1:] == "s" and u.op == "x" and u.args[1] == "encode" and u.args[2] is v:
            return ("yes", "") if int(code[:-1] or 1) >= 3 else ("no", "cut to %s characters" % code[:-1])
        return "maybe", sh
    wide = WIDE.get(dt, ())
    if u is v:
        if code in wide:
            return "yes", ""
        if dt == "int" and code in "HIBQL":
            return "maybe", "unsigned: %s" % sh
        return "no", "%s is packed as %r, which does not hold every %s" % (terms.show(v)[:60], code, dt)
    if code not in wide and not (dt == "float" and code == "d"):
        if dt == "int" and code == "d":
            pass
        else:
            return "no", "%s is packed as %r, which does not hold every %s" % (terms.show(u)[:60], code, dt)
    c = core(v)
    if v.op != "num" or c is None or u.op != "num":
        return "maybe", "only as %s" % sh
    # linear in the parameter alone
    lin = [(m, k) for m, k in u.args[0] if m]
    if len(lin) == 1 and lin[0][0] == ((c, 1),):
        return "yes", ""
    # two values of the parameter with the same bytes
    import witness
    o = sym("other.%s" % terms.show(v), "int" if dt == "int" else "real")
    u2 = terms.subst(u, {c: o})
    same = terms.eq0(sub(u, u2))
    s, text = witness.refute(not_(same), TRUE, and_(g, not_(terms.eq0(sub(v, o)))), 1, 60, ())
    if s == "witness":
        return "no", "two values are packed alike: %s" % text
    if s == "equal":
        return "yes", ""
    return "maybe", "only as %s" % sh


def c05_version(ck):
    """Maps with the same identity hash have the same tracts."""
    I = ck.I
    rule = "equal identity hash means equal tracts"
    for b in worlds.BUILDERS[:1]:
        over = usual("v" + b[0] + ".")
        over["v" + b[0] + ".numRings"] = lambda I: num(2)
        w1 = World(I, "rings", b, 1, prefix="v" + b[0] + ".", overrides=over)
        w0 = World(I, "rings", b, 0, config=w1.config)
        a, c = I.method(w1.map, "getSha1"), I.method(w0.map, "getSha1")
        if unknowns(a.value) or unknowns(c.value):
            ck.undecided(rule, ck.where(w1.cls, "updateSha1"), "not understood")
            continue
        # the first tract of the second ring
        i = num(8)
        t1, t0 = (isolated(I, lambda m: I.deep(I.method(getitem(I, m, i).value, "getCtrCoord").value), m)
                  for m in (w1.map, w0.map))
        f = ck.where(w1.cls, "updateSha1") + ", software version"
        if a.value is not c.value:
            ck.add(rule, f, "discharged")
        else:
            ck.eq(rule, f, t1, t0, what="versions 0 and 1 have one identity hash")


# ------------------------------------------------------------------ C07
COMPARE = """
def eq(a, b):
    return a == b

def ne(a, b):
    return a != b

def rev(a, b):
    return b == a

def digests(a, b):
    return a.getSha1() == b.getSha1()

def hashes(a, b):
    return hash(a), hash(b)

class Other:
    def __init__(self):
        self.x = 1

def other():
    return Other()

from lsst.skymap import PatchInfo, CellInfo, Index2D
import lsst.geom as geom

def box(b):
    return geom.Box2I(geom.Point2I(b[0], b[1]), geom.Extent2I(b[2], b[3]))

def patch(i, inner, outer, dims, border, n, m, wcs):
    return PatchInfo(index=Index2D(i[0], i[1]), innerBBox=box(inner), outerBBox=box(outer), sequentialIndex=i[2],
                     tractWcs=wcs, cellInnerDimensions=geom.Extent2I(dims[0], dims[1]), cellBorder=border,
                     numCellsPerPatchInner=n, numCellsInPatchBorder=m)

def cell(i, inner, outer, dims, border, n, m, wcs):
    return CellInfo(index=Index2D(i[0], i[1]), innerBBox=box(inner), outerBBox=box(outer), sequentialIndex=i[2],
                    tractWcs=wcs)

def alike(p, q):
    return (p.getIndex() == q.getIndex() and p.getInnerBBox() == q.getInnerBBox()
            and p.getOuterBBox() == q.getOuterBBox())
"""


def c07(ck):
    I = ck.I
    e = I.spec(COMPARE, "compare")
    A = list(maps(ck, prefix="a", builders=("legacy",)))
    B = list(maps(ck, prefix="b", builders=("cells", "legacy")))
    for w in A:
        for v in B:
            if v.builder == "legacy" and v.kind != w.kind:
                continue
            ck.guard("C07", w.name() + v.name(), c07_pair, ck, e, w, v)
    for w in maps(ck, prefix="c"):
        ck.guard("C07", w.name(), c07_self, ck, e, w)
    ck.guard("C07", "patches", c07_patches, ck, e)
    for n in ("patch", "cell"):
        ck.guard("C07", n, c07_made, ck, e, n)


def c07_pair(ck, e, w, v):
    I = ck.I
    run = lambda n, *a: isolated(I, I.run, e[n], a)
    where = "%s, %s" % (at(ck, w, "__eq__"), v.name())
    r = run("eq", w.map, v.map)
    ck.no_raise("comparing sky maps never raises", where, r)
    ck.eq("sky maps are equal when their identity hashes are", where, r.value, run("digests", w.map, v.map).value)
    n = run("ne", w.map, v.map)
    ck.no_raise("comparing sky maps never raises", where.replace("__eq__", "__ne__"), n)
    ck.eq("!= is the negation of ==", where.replace("__eq__", "__ne__"), I.truth(n.value), not_(I.truth(r.value)))


def c07_self(ck, e, w):
    I = ck.I
    run = lambda n, *a: isolated(I, I.run, e[n], a)
    # another map of the same configuration
    for v in VERSIONS.get(w.kind, (None,)):
        w2 = World(I, w.kind, w.builder, v, config=w.config)
        where = at(ck, w, "__eq__")
        same = run("digests", w.map, w2.map).value
        r = run("eq", w.map, w2.map)
        ck.eq("sky maps are equal when their identity hashes are", where, r.value, same)
        ck.eq("!= is the negation of ==", at(ck, w, "__ne__"), run("ne", w.map, w2.map).value, not_(same))
        h = run("hashes", w.map, w2.map)
        ck.no_raise("sky maps can be hashed", at(ck, w, "__hash__"), h)
        if h.guard is not FALSE:
            a, b = I.unpack(h.value, 2, [False])
            # hash values that differ as terms count as different
            if unknowns(a) or unknowns(b):
                ck.undecided("equal sky maps have equal hash()", at(ck, w, "__hash__"), "not understood")
            else:
                own = [u for u in terms.all_atoms(a) if u.op == "app" and u.args[0] in ("id", "hash")
                       and any(x.op == "obj" for x in terms.all_atoms(u))]
                if own and a is not b and same is TRUE:
                    ck.add("equal sky maps have equal hash()", at(ck, w, "__hash__"), "violated",
                           "depends on the identity of the object: %s" % terms.show(a)[:120])
                else:
                    ck.eq("equal sky maps have equal hash()", at(ck, w, "__hash__"), a, b, same)
    others = [("None", NONE), ("number", num(3)), ("text", const("x")), ("list", I.newlist(terms.seq())),
              ("other object", I.run(e["other"], []).value), ("its class", py(w.cls)), ("its configuration", w.config)]
    for n, o in others:
        odd(ck, e, w.map, o, at(ck, w, "__eq__") + ", with " + n)


def odd(ck, e, a, o, where):
    """Comparison with something of another type."""
    I = ck.I
    for op, want in (("eq", FALSE), ("rev", FALSE), ("ne", TRUE)):
        r = isolated(I, I.run, e[op], [a, o])
        ck.no_raise("comparing with other types never raises", where, r)
        if r.guard is not FALSE:
            ck.eq("other types are unequal", where, r.value, want, r.guard)


def c07_made(ck, e, kind):
    """Two patches or cells with arbitrary indices and boxes."""
    I = ck.I

    def made(tag, base=None):
        def v(n, lo=0):
            s = sym("%s.%s.%s" % (n, tag, kind), "int")
            fact(s, lo)
            return s
        args = [mk("tup", "", v("x"), v("y"), v("s")), mk("tup", "", *[v("i%d" % k, k // 2) for k in range(4)]),
                mk("tup", "", *[v("o%d" % k, k // 2) for k in range(4)]), mk("tup", "", v("cx", 1), v("cy", 1)),
                v("b"), v("n", 1), v("m"), mk("x", "SkyWcs", "sym", const("wcs." + tag))]
        return make(args), args

    def make(args):
        n0 = I.nid
        r = I.run(e[kind], args)
        if r.guard is FALSE:
            raise AnalysisError("cannot make a " + kind)
        worlds.settle(I, n0, r.guard)
        care[0] = and_(care[0], r.guard)
        return r.value
    care = [TRUE]
    p, args = made("p")
    q, _ = made("q")
    where = ck.where(I.obj(p).cls, "__eq__")
    run = lambda n, *a: isolated(I, I.run, e[n], a)
    same = I.truth(run("alike", p, q).value)
    r = run("eq", p, q)
    ck.no_raise("comparing never raises", where, r)
    ck.eq("objects with another index or box are unequal", where, and_(I.truth(r.value), not_(same)), FALSE,
          care[0])
    ck.eq("!= is the negation of ==", where.replace("__eq__", "__ne__"), I.truth(run("ne", p, q).value),
          not_(I.truth(r.value)), care[0])
    again = make(args)
    ck.eq("an object equals one with the same index and boxes", where, I.truth(run("eq", p, again).value), TRUE,
          care[0])
    # another index or box alone makes a difference
    for k in range(3):
        for j in range(2 if k == 0 else 4):
            s = sym("other%d%d.%s" % (k, j, kind), "int")
            fact(s, j // 2 if k else 0)
            old = args[k].args[1 + j]
            a2 = list(args)
            a2[k] = mk("tup", "", *[s if i == j else u for i, u in enumerate(args[k].args[1:])])
            o = make(a2)
            ck.eq("objects with another index or box are unequal", where, I.truth(run("eq", p, o).value), FALSE,
                  and_(care[0], and_(not_(terms.eq0(sub(s, old))), nonempty(args))))


    if kind == "patch":
        # another cell border or number of cells does as well
        for k in (4, 5):
            o = sym("other%d.%s" % (k, kind), "int")
            fact(o, 1 if k == 5 else 0)
            q = make(args[:k] + [o] + args[k + 1:])
            ck.eq("patches with other cells are unequal", where, I.truth(run("eq", p, q).value), FALSE,
                  and_(care[0], not_(terms.eq0(sub(o, args[k])))))


def nonempty(args):
    """The boxes have a positive size, so that their corners tell them apart."""
    g = TRUE
    for t in args[1:3]:
        for u in t.args[3:]:
            g = and_(g, lift(lt, ZERO, u))
    return g


def c07_patches(ck, e):
    from subjects import generic
    I = ck.I
    for s in generic(ck):
        run = lambda n, *a: isolated(I, I.run, e[n], a)
        x, y = s.indices()
        g = s.care
        s.tag += "q"
        u, v = s.indices()
        g = and_(g, s.care)
        p, q = (s.get("getPatchInfo", s.pair(*z)) for z in ((x, y), (u, v)))
        p2 = s.get("getPatchInfo", s.pair(x, y))
        g = and_(g, and_(p.guard, q.guard))
        pc = I.obj(p.value).cls if p.value.op == "obj" else None
        where = ck.where(pc, "__eq__") + " [%s]" % s.label if pc else s.label
        pairs = [(p.value, q.value, p2.value, where)]
        if s.bkind == "cells":
            a = sym("a.c07", "int")
            fact(a, 0)
            m1, m2 = index_in("c1.c07" + s.tag, s.ncx), index_in("c2.c07" + s.tag, s.ncx)
            k = I.method(p.value, "getCellInfo", s.pair(m1, m2))
            k2 = I.method(p.value, "getCellInfo", s.pair(m2, m1))
            k3 = I.method(p2.value, "getCellInfo", s.pair(m1, m2))
            g = and_(g, and_(k.guard, and_(k2.guard, k3.guard)))
            kc = I.obj(k.value).cls if k.value.op == "obj" else None
            pairs.append((k.value, k2.value, k3.value, ck.where(kc, "__eq__") + " [%s]" % s.label))
        for a, b, c, wh in pairs:
            same = run("alike", a, b).value
            r = run("eq", a, b)
            ck.no_raise("comparing never raises", wh, r, g)
            ck.eq("objects with another index or box are unequal", wh, I.truth(r.value), FALSE, and_(g, not_(I.truth(same))))
            ck.eq("an object equals one with the same index and boxes", wh, I.truth(run("eq", a, c).value), TRUE, g)
            ck.eq("!= is the negation of ==", wh.replace("__eq__", "__ne__"), I.truth(run("ne", a, b).value),
                  not_(I.truth(r.value)), g)
            for n, o in (("None", NONE), ("number", num(3)), ("text", const("x")), ("a pair", s.pair(x, y)),
                         ("the tract", s.tract)):
                odd(ck, e, a, o, wh + ", with " + n)


# ------------------------------------------------------------------ C08
STATE = """
def use(m, i, c):
    m[i]
    m.getSha1()

def later(m, version):
    s = dict(m.__getstate__())
    s["version"] = version
    m.__setstate__(s)
"""


def roundtrip(I, m):
    """What unpickling the pickle of m gives (Result)."""
    c = I.obj(m).cls
    for n in ("__reduce_ex__", "__reduce__"):
        f, owner = c.lookup(n)
        if f is not None:
            r = I.method(m, n, *([num(2)] if n == "__reduce_ex__" else []))
            st = I.seqterm(r.value)
            k = terms.num_const(I.seq_len(st)) if st is not None else None
            if k is None or k not in (2, 3):
                raise AnalysisError("%s returns %s" % (n, terms.show(r.value)[:80]))
            v = I.unpack(r.value, int(k), [False])
            at_ = I.seqterm(v[1])
            args = [I.seq_elem(at_, num(i)) for i in range(int(terms.num_const(I.seq_len(at_))))]
            out = I.run(v[0], args)
            out.excs = list(out.excs) + list(r.excs)
            if k == 3:
                restore(I, out.value, v[2], out)
            return out
    g, _ = c.lookup("__getstate__")
    r = I.method(m, "__getstate__") if g is not None else None
    o = I.alloc(c)
    if g is None:
        for k, v in I.obj(m).fields.items():
            I.obj(o).fields[k] = v
        from interp import Result
        return Result(o, TRUE, [])
    from interp import Result
    out = Result(o, r.guard, list(r.excs))
    restore(I, o, r.value, out)
    return out


def restore(I, o, state, out):
    s, _ = I.obj(o).cls.lookup("__setstate__")
    if s is None:
        raise AnalysisError("state without __setstate__")
    r = I.method(o, "__setstate__", state)
    out.excs += r.excs
    out.guard = and_(out.guard, r.guard)


def another(i, n, which):
    """An index other than i."""
    j = sym("%s than %s" % (which, terms.show(i)), "int")
    if which.startswith("a lower"):
        fact(j, 0, sub(i, ONE))
    else:
        fact(j, add(i, ONE), sub(n, ONE))
    return j


def c08(ck):
    I = ck.I
    e = I.spec(STATE, "state")
    for w in maps(ck):
        for used in ("", "the same tract", "a lower tract", "a higher tract"):
            ck.guard("C08", w.name(), c08_one, ck, w, e, used)
        f, _ = w.cls.lookup("__setstate__")
        if f is not None:
            ck.guard("C08", w.name(), c08_version, ck, w, e)


def c08_one(ck, w, e, used):
    I = ck.I
    snap = I.snapshot()
    try:
        lab = ", after queries for " + used if used else ""
        n = w.len()
        i = index_in("i.c08%s%s" % (w.kind, w.builder), n)
        if used:
            j = i if used == "the same tract" else another(i, n, used)
            I.run(e["use"], [w.map, j, coord("c.c08")])
        name = next((x for x in ("__reduce_ex__", "__reduce__", "__setstate__") if w.cls.lookup(x)[0] is not None),
                    "__getstate__")
        where = at(ck, w, name) + lab
        r = roundtrip(I, w.map)
        ck.no_raise("a sky map can be unpickled", where, r)
        if r.guard is FALSE or r.value.op != "obj":
            ck.undecided("unpickled map", where, "not understood")
            return
        m = r.value
        ck.ok("the type is restored", where, I.obj(m).cls is w.cls, "is %s" % getattr(I.obj(m).cls, "name", "?"))
        fz = lambda o, q, *a: uncopied(I.deep(I.method(o, q, *a).value))
        ck.eq("the configuration is restored", where, I.deep(I.attr(m, "config").value), I.deep(I.attr(w.map, "config").value))
        ck.eq("the identity hash is restored", where, I.method(m, "getSha1").value, I.method(w.map, "getSha1").value)
        ck.eq("the number of tracts is restored", where, I.run(mk("ext", "builtins.len"), [m]).value, n)
        if w.cls.lookup("getVersion")[0] is not None:
            ck.eq("the software version is restored", where, fz(m, "getVersion"), fz(w.map, "getVersion"))
        elif w.cls.lookup("__reduce__")[0] is not None:
            ck.eq("the software version is restored", where, fz(m, "__reduce__"), fz(w.map, "__reduce__"))
        a, b = getitem(I, m, i), getitem(I, w.map, i)
        g = and_(a.guard, b.guard)
        for q in QUANTITIES:
            ck.eq("the tracts are restored", where + " " + q, fz(a.value, q), fz(b.value, q), g)
    finally:
        I.restore(snap)


def c08_version(ck, w, e):
    I = ck.I
    where = at(ck, w, "__setstate__")
    tup = lambda *v: mk("tup", "", *[x if isinstance(x, T) else num(x) for x in v])
    big, small, minor = sym("big.c08", "int"), sym("small.c08", "int"), sym("minor.c08", "int")
    fact(big, 2)
    fact(small, None, 1)
    fact(minor, 0)
    for v in (tup(2, 0), tup(2, 1), tup(3, 0), tup(10, 0), tup(big, minor)):
        r = isolated(I, I.run, e["later"], [w.map, v])
        ck.eq("state of version (2, 0) or later is refused", where, r.raised("RuntimeError"), TRUE)
    for v in (tup(1, 0), tup(1, 9), tup(0, 3), tup(small, minor)):
        r = isolated(I, I.run, e["later"], [w.map, v])
        ck.eq("state of an earlier version is accepted", where, r.raised(), FALSE)
