"""Models of what the package uses from outside: builtins, numpy, lsst.geom,
lsst.pex.config, struct/hashlib, the butler.  Anything without a model gives
an explicit unknown, which no rule can mistake for a decided value."""
import ast
import builtins
from fractions import Fraction

import terms
from terms import (T, mk, const, TRUE, FALSE, NONE, is_const, cval, boolc, unk, num, num_const, ZERO, ONE, PI, sym,
                   atom, is_int, add, sub, mul, div, neg, power, floor_, ceil_, mod_, ite, not_, and_, or_, lt, le,
                   eq0, same, batom, seq, seg, seq_items, fresh_binder, mk_comp, subst, single_atom, restrict, lift,
                   lift_num, show, leaves, leafset, all_atoms, max_, min_, abs_, comp_binder, atom_bdd, relu)

NOTIMPL = mk("ext", "builtins.NotImplemented")
UNDEF = mk("undef")


def _interp():
    import interp
    return interp


def bind(I):
    R = terms.REBUILD
    R["ang"] = ang
    R["x"] = lambda typ, fn, *a: X(typ, fn, *a)
    R["psum"] = lambda st, k, kind: psum(I, st, k)
    R["elem"] = lambda st, i, kind: lift(lambda u: I.seq_elem(st, u) if u.op == "num" else unk("index"), i)
    R["len"] = lambda u: I.seq_len(u) if u.op in ("seq", "symseq") else atom(mk("len", u))
    R["seq"] = lambda *segs: flat(segs)

    def rebuild_comp(level, count, guard, *segs):
        return mk("comp", level, count, guard, *segs)
    R["comp"] = rebuild_comp
    I.origin = {}          # loop index -> canonical indices that stand for it
    I.facts = {}
    I.hook_opaque = {}
    I.whiles = []


def flat(segs):
    out = []
    for s in segs:
        if s.op == "splice" and s.args[0] is TRUE and s.args[1].op == "seq":
            out += list(s.args[1].args)
        elif s.op == "splice" and s.args[1].op == "seq":
            out += list(guarded_segs(s.args[1], s.args[0]))
        else:
            out.append(s)
    return seq(*out)


# ------------------------------------------------------------------ builders
# one operation on vectors and matrices
DOT = ("MatMult", "method.dot", "numpy.matmul", "numpy.dot")


def is_vector(t):
    """A three-vector, for certain: one of a list of them, turned or not, or
    that of a coordinate."""
    if not isinstance(t, T) or t.op != "x":
        return False
    if t.args[0] == "Vector3d":
        return True
    if t.args[1] in ("item", "elem") and t.args[2].op == "x" and t.args[2].args[1] == "opaque":
        return t.args[2].args[2].args[0] in VECTORS
    if t.args[1] in ("method.copy", "numpy.array", "numpy.asarray") and len(t.args) == 3:
        return is_vector(t.args[2])
    if t.args[1] == "numpy.dot":
        m = t.args[2]
        return is_vector(t.args[3]) and m.op == "x" and m.args[1] == "opaque" and m.args[2].args[0] in MATRIX
    return False


VECTORS = ("_computeFullVecList", "_computeDodecahedronVertices", "_sortedVectorList", "_findClosePair")
MATRIX = ("_computeCoordTransform", "computeRotationMatrix")


def X(typ, fn, *args):
    """Uninterpreted application; guarded arguments are lifted outwards."""
    if fn in DOT and len(args) == 2:
        fn = "numpy.dot"
        if all(is_vector(a) for a in args):
            # of vectors: a number
            return atom(mk("app", "dot", "real", *args))

    def parts(a):
        if isinstance(a, T):
            if a.op == "ite":
                return [a]
            if a.op == "tup" and any(isinstance(u, T) and u.op in ("ite", "tup") for u in a.args[1:]):
                return [p for u in a.args[1:] for p in parts(u)]
        return []
    ps = []
    for a in args:
        for p in parts(a):
            if p not in ps:
                ps.append(p)
    if not ps:
        return mk("x", typ, fn, *args)

    def rebuild(a, m):
        if isinstance(a, T):
            if a in m:
                return m[a]
            if a.op == "tup" and parts(a):
                return mk("tup", a.args[0], *[rebuild(u, m) for u in a.args[1:]])
        return a
    return lift(lambda *l: mk("x", typ, fn, *[rebuild(a, dict(zip(ps, l))) for a in args]), *ps)


def A(name, kind, *args):
    """Uninterpreted numeric application."""
    t = X("@num", name, *args)
    return lift(lambda u: atom(mk("app", name, kind, *u.args[2:])), t)


def B(name, *args):
    t = X("@bool", name, *args)
    return lift(lambda u: batom(name, *u.args[2:]), t)


def ang(v):
    return lift(lambda n: mk("ang", n) if n.op == "num" else (n if n.op == "unk" else unk("angle of " + show(n)[:40])),
                v)


def rad(v):
    """radians of an angle (or number)."""
    return lift(lambda u: u.args[0] if u.op == "ang" else u if u.op in ("num", "unk") else
                unk("angle " + show(u)[:40]), v)


DEG = div(PI, num(180))
UNITS = {"radians": ONE, "degrees": DEG, "hours": div(PI, num(12)), "arcminutes": div(DEG, num(60)),
         "arcseconds": div(DEG, num(3600)), "milliarcseconds": div(DEG, num(3600000))}
TWOPI = mul(num(2), PI)


def tonum(v):
    """Booleans as numbers."""
    return lift(lambda u: ONE if u is TRUE else ZERO if u is FALSE else u, v)


def tup(*a):
    return mk("tup", "", *a)


# ------------------------------------------------------------------ containers
def list_append(I, o, v):
    old = I.obj(o).fields["seq"]
    app = seg(v, I.relG(I.obj(o)))
    new = lift(lambda s: seq(*(s.args + (app,))) if s.op == "seq" else seq(mk("splice", TRUE, s), app), old)
    I.writes.append((I.obj(o).id, "seq", I.G, v, old, I.loc()))
    I.obj(o).fields["seq"] = new


def list_extend(I, o, v):
    st = I.seqterm(restrict(v, I.G))
    if st is None:
        d = I.domain(v)
        if d is not None and d[2] is not None:
            for g, x in d[2]:
                G0 = I.G
                I.G = and_(G0, g)
                list_append(I, o, x)
                I.G = G0
            return
        if d is not None and not isinstance(d[0], tuple):
            from loops import gen_seq
            st = gen_seq(I, d[0], d[1])
        else:
            st = seq(seg(I.unknown("extend by " + show(v)[:60])))
    old = I.obj(o).fields["seq"]
    items = guarded_segs(st, I.relG(I.obj(o)))
    new = lift(lambda s: seq(*(s.args + items)) if s.op == "seq" else seq(mk("splice", TRUE, s), *items), old)
    I.writes.append((I.obj(o).id, "seq", I.G, v, old, I.loc()))
    I.obj(o).fields["seq"] = new


def guarded_segs(st, g):
    if st.op != "seq":
        return (mk("splice", g, st),)
    if g is TRUE:
        return st.args
    out = []
    for s in st.args:
        if s.op == "seg":
            out.append(seg(s.args[1], and_(g, s.args[0])))
        elif s.op == "comp":
            if len(s.args) == 4 and s.args[3].op == "seg":
                e = s.args[3]
                out.append(mk("comp", s.args[0], s.args[1], s.args[2], seg(e.args[1], and_(g, e.args[0]))))
            else:
                out.append(mk("comp", s.args[0], s.args[1], and_(g, s.args[2]), *s.args[3:]))
        elif s.op == "splice":
            out.append(mk("splice", and_(g, s.args[0]), s.args[1]))
        else:
            out.append(mk("splice", g, seq(s)))
    return tuple(out)


def concat(*sts):
    out = []
    for s in sts:
        if s.op == "seq":
            out += list(s.args)
        else:
            out.append(mk("splice", TRUE, s))
    return seq(*out)


# -------- dicts: field "d" is a sequence of (key, value) pairs
def dict_set(I, o, k, v):
    old = I.obj(o).fields["d"]
    G = I.G

    def one(s):
        segs = list(s.args) if s.op == "seq" else [mk("splice", TRUE, s)]
        if is_const(k):
            for i, e in enumerate(segs):
                if e.op == "seg" and e.args[1].op == "tup" and e.args[1].args[1] is k:
                    nv = ite(G, v, e.args[1].args[2]) if e.args[0] is TRUE else None
                    if nv is not None:
                        segs[i] = seg(tup(k, nv))
                        return seq(*segs)
                    if e.args[0] is G:
                        segs[i] = seg(tup(k, v), G)
                        return seq(*segs)
                    segs[i] = seg(tup(k, ite(G, v, e.args[1].args[2])), or_(G, e.args[0]))
                    return seq(*segs)
        segs.append(seg(tup(k, v), G))
        return seq(*segs)
    I.writes.append((I.obj(o).id, "d", G, v, old, I.loc()))
    I.obj(o).fields["d"] = lift(one, old)


def dict_term(I, v):
    """Sequence of pairs of a mapping value."""
    v = restrict(v, I.G)
    if v.op == "obj" and I.obj(v).cls == "dict":
        d = restrict(I.obj(v).fields["d"], I.G)
        return d if d.op == "seq" else None
    if v.op == "x" and v.args[0] == "mapping":
        return seq(mk("splice", TRUE, mk("x", "items", "items", v)))
    return None


def dict_update(I, o, v):
    d = dict_term(I, v)
    if d is None:
        st = I.seqterm(v)
        if st is not None and seq_items(st) is not None:
            for p in seq_items(st):
                a = I.unpack(p, 2, [False])
                dict_set(I, o, a[0], a[1])
            return
        if st is not None:
            d = st if st.op == "seq" else seq(mk("splice", TRUE, st))
        else:
            d = seq(seg(tup(I.unknown("update"), I.unknown("update"))))
    if all(s.op == "seg" for s in d.args):
        G0 = I.G
        for s in d.args:
            I.G = and_(G0, s.args[0])
            dict_set(I, o, s.args[1].args[1], s.args[1].args[2])
        I.G = G0
        return
    old = I.obj(o).fields["d"]
    I.writes.append((I.obj(o).id, "d", I.G, v, old, I.loc()))
    I.obj(o).fields["d"] = lift(lambda s: concat(s, seq(*guarded_segs(d, I.relG(I.obj(o))))), old)


def dict_items_concrete(I, v):
    d = dict_term(I, v)
    if d is None:
        return None
    out = []
    for s in d.args:
        if s.op != "seg" or s.args[0] is not TRUE:
            return None
        out.append((s.args[1].args[1], s.args[1].args[2]))
    return out


def map_seq(I, st, f):
    from loops import map_seq as m
    return m(I, st, f)


def comp_at(I, cm):
    """(fresh index, atom, guard, element) of a one-element comprehension."""
    b = fresh_binder(cm.args[1])
    cb = comp_binder(cm)
    e = cm.args[3]
    g = subst(and_(cm.args[2], e.args[0]), {cb: b})
    return b, g, I.instantiate(e.args[1], cb, b)


def dict_keys_seq(I, v):
    d = restrict(I.obj(v).fields["d"], I.G)
    if d.op != "seq":
        return None
    if len(d.args) == 1 and d.args[0].op == "splice" and d.args[0].args[0] is TRUE and \
            d.args[0].args[1].op == "x" and d.args[0].args[1].args[0] == "items":
        return I.seqterm(d.args[0].args[1].args[2])
    return map_seq(I, d, lambda p: pair(I, p)[0])


def pair(I, p):
    if p.op == "tup":
        return p.args[1], p.args[2]
    return I.unpack(p, 2, [False])


def x_elem(I, u, i):
    """Element i of an opaque iterable."""
    if u.op == "x":
        if u.args[0] == "items":
            k = X("str", "mapkey", u.args[2], i)
            return tup(k, mapval(u.args[2], k))
        if u.args[0] == "values":
            return mapval(u.args[2], X("str", "mapkey", u.args[2], i))
        if u.args[0] == "mapping":
            return X("str", "mapkey", u, i)
        if u.args[0] == "coords":
            return X("SpherePoint", "coord", u, i)
        if u.args[0] is None:
            return X(None, "item", u, i)
    return X(None, "elem", u, i)


def mapval(M, k):
    if M.args[2].op == "const" and cval(M.args[2]) == "int":
        return A("mapval", "int", M, k)
    return X(None, "mapval", M, k)


def keyeq(I, a, b):
    r = compare_any(I, "Eq", a, b)
    return I.truth(r)


def dict_lookup(I, d, k):
    """(present, value) of key k in a pair sequence."""
    if d.op != "seq":
        return B("haskey", d, k), X(None, "dictget", d, k)
    has, val = FALSE, UNDEF
    for s in d.args:
        if s.op == "seg":
            kk, vv = pair(I, s.args[1])
            e = and_(s.args[0], keyeq(I, kk, k))
            has, val = or_(has, e), ite(e, vv, val)
        elif s.op == "splice" and s.args[1].op == "x" and s.args[1].args[0] == "items":
            M = s.args[1].args[2]
            e = and_(s.args[0], B("haskey", M, k))
            has, val = or_(has, e), ite(e, mapval(M, k), val)
        elif s.op == "comp":
            inv = inverse_of(s)
            e = v = None
            if inv is not None and k.op == "num":
                # {value: key for key, value in M.items()}[M[b]] is b (values distinct)
                a = k.args[0]
                if len(a) == 1 and a[0][1] == 1 and len(a[0][0]) == 1 and a[0][0][0][0].op == "app" and \
                        a[0][0][0][0].args[0] == "mapval" and a[0][0][0][0].args[2] is inv:
                    b = a[0][0][0][0].args[3]
                    e, v = B("haskey", inv, b), b
                    I.assumptions.add("the integers of a band mapping are distinct")
            if e is None:
                t = mk("seq", s)
                e, v = B("haskey", t, k), X(None, "dictget", t, k)
            has, val = or_(has, e), ite(e, v, val)
        else:
            t = mk("seq", s)
            e = B("haskey", t, k)
            has, val = or_(has, e), ite(e, X(None, "dictget", t, k), val)
    return has, val


def inverse_of(s):
    """Mapping M if the comp segment is {v: k for k, v in M.items()}."""
    if len(s.args) == 4 and s.args[3].op == "seg" and s.args[3].args[0] is TRUE and s.args[2] is TRUE:
        p = s.args[3].args[1]
        if p.op == "tup" and len(p.args) == 3:
            k, v = p.args[1], p.args[2]
            if v.op == "x" and v.args[1] == "mapkey" and v.args[3] is atom(comp_binder(s)):
                M = v.args[2]
                if k is mapval(M, v) and s.args[1] is atom(mk("len", M)):
                    return M
    return None


# ------------------------------------------------------------------ sequences
def symseq_elem(I, st, i):
    src, kind = st.args[0], st.args[1]
    if isinstance(src, T):
        if src.op == "prefix":
            base, lo = src.args[0], src.args[1]
            return I.seq_elem(base, lift_num(add, lo, i))
        if src.op == "reversed":
            n = I.seq_len(src.args[0])
            return I.seq_elem(src.args[0], lift_num(lambda a, b: sub(sub(a, ONE), b), n, i))
        if src.op == "sorted" and num_const(i) == 0:
            return src_min(I, src)
        if src.op == "carryseq":
            # earlier iterations only stored below the loop index
            init, ba = src.args[1], src.args[2]
            if ba is not NONE and i.op == "num" and terms.prove_ge0(sub(i, atom(ba))):
                return I.seq_elem(init, i)
            return X(None, "carried", const(src.args[0]), i)
        if src.op == "cumsum":
            return psum(I, src.args[0], lift_num(add, i, ONE))
        if src.op == "x" and kind not in ("int", "real", "str"):
            return x_elem(I, src, i)
    c = num_const(i)
    if c is not None and c < 0:
        i = lift_num(add, i, st.args[2])
    if kind in ("int", "real"):
        return lift(lambda u: atom(mk("elem", st, u, kind)) if u.op == "num" else unk("index"), i)
    if kind == "sp":
        return X("SpherePoint", "coordelem", st, i)
    if kind == "vec3":
        return X("ndarray3", "elem", st, i)
    if kind == "str":
        return X("str", "elem", st, i)
    return X(None, "elem", st, i)


def norm_key(k):
    """Positive scaling of a sort key."""
    if k.op == "num":
        k = terms._scale_pos(k)
        m, c = terms.lead(k)
        if c is not None:
            k = mul(k, num(1 / abs(c)))
    return k


def argmin_index(I, st, key):
    """Index of the first smallest element by key(elem)."""
    if len(st.args) == 1 and st.args[0].op == "comp" and len(st.args[0].args) == 4 and \
            st.args[0].args[3].op == "seg" and st.args[0].args[3].args[0] is TRUE and st.args[0].args[2] is TRUE:
        cm = st.args[0]
        b, _g, el = comp_at(I, cm)
        k = key(el)
        ks = list(k.args[1:]) if k.op == "tup" else [k]
        out = []
        for u in ks:
            if u is b:
                break
            u = rad(u) if u.op == "ang" else u
            out.append(norm_key(u) if u.op == "num" else I.freeze(u))
            if terms.contains(out[-1], "obj"):
                return None
        kt = out[0] if len(out) == 1 else mk("tup", "", *out)
        from loops import comp
        return atom(mk("app", "argmin", "int", comp(I, b, cm.args[1], TRUE, [seg(kt)])))
    return None


def src_min(I, src):
    st, key = src.args
    it = I.sortkeys.get(key) if hasattr(I, "sortkeys") else None
    k = argmin_index(I, st, it or (lambda e: e))
    if k is None:
        return I.unknown("minimum of a sequence")
    return I.seq_elem(st, k)


def psum(I, st, k):
    """Sum of the first k elements of a numeric sequence."""
    kind = I.seq_kind(st) if st.op == "seq" else st.args[1]
    if kind not in ("int", "real"):
        return I.unknown("sum of non-numbers")

    def one(kk):
        if kk.op != "num":
            return unk("count of sum")
        base, n = st, kk
        tot = ZERO
        while base.op == "seq" and base.args and base.args[0].op == "seg" and base.args[0].args[0] is TRUE and \
                len(base.args) > 1:
            tot = lift_num(add, tot, base.args[0].args[1])
            base = seq(*base.args[1:])
            n = sub(n, ONE)
        d = dict(n.args[0])
        c = d.get((), Fraction(0))
        if c.denominator == 1 and 0 < abs(c) <= 4:
            k0 = sub(n, num(c))
            t = psum1(base, k0, kind)
            for j in range(abs(int(c))):
                e = I.seq_elem(base, add(k0, num(j if c > 0 else -j - 1)))
                t = lift_num(add if c > 0 else sub, t, e)
            return lift_num(add, tot, t)
        return lift_num(add, tot, psum1(base, n, kind))

    def psum1(base, n, kind):
        if num_const(n) == 0:
            return ZERO
        return atom(mk("psum", base, n, kind))
    return lift(one, k)


def total(I, st):
    items = seq_items(st) if st.op == "seq" else None
    if items is not None:
        t = ZERO
        for e in items:
            t = lift_num(add, t, tonum(e))
        return t
    if st.op == "seq" and all(s.op == "seg" for s in st.args):
        t = ZERO
        for s in st.args:
            t = lift_num(add, t, ite(s.args[0], tonum(s.args[1]), ZERO))
        return t
    if st.op == "symseq" and isinstance(st.args[0], T) and st.args[0].op == "prefix" and \
            num_const(st.args[0].args[1]) == 0:
        return psum(I, st.args[0].args[0], st.args[2])
    if st.op == "symseq":
        return psum(I, st, st.args[2])
    if len(st.args) == 1 and st.args[0].op == "comp" and len(st.args[0].args) == 4 and \
            st.args[0].args[3].op == "seg":
        cm = st.args[0]
        e = cm.args[3]
        v = tonum(e.args[1])
        if e.args[0] is not TRUE:
            v = ite(e.args[0], v, ZERO)
        if all(l.op == "num" for l in leafset(v)):
            if comp_binder(cm) not in all_atoms(v):
                return lift_num(mul, v, cm.args[1])
            if v.op == "num":
                st2 = seq(mk("comp", cm.args[0], cm.args[1], cm.args[2], seg(v)))
                if cm.args[2] is TRUE:
                    return psum(I, st2, cm.args[1])
            return atom(mk("sum", st.args[0], "int" if all(is_int(l) for l in leafset(v)) else "real"))
    if all(s.op == "comp" or s.op == "seg" for s in st.args) and len(st.args) > 1:
        t = ZERO
        for s in st.args:
            t = lift_num(add, t, total(I, seq(s)))
        return t
    k = I.seq_kind(st)
    if k:
        return atom(mk("sum", st, k))
    return I.unknown("sum")


# ------------------------------------------------------------------ geometry
def point(I, cls, x, y):
    return I.alloc(cls, x=x, y=y)


def xy(I, v):
    """Components of a point, extent or pair."""
    v = restrict(v, I.G)
    if v.op == "obj" and I.obj(v).cls in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
        return I.getf(v, "x"), I.getf(v, "y")
    a = I.unpack(v, 2, [False])
    return a[0], a[1]


def round_half(v):
    """lsst.geom.Point2I(Point2D): nearest pixel."""
    return lift(lambda u: floor_(add(u, num(Fraction(1, 2)))) if u.op == "num" else u, v)


def newbox(I, bx, by, ex, ey, empty=None):
    if empty is None:
        empty = or_(lift(lambda a, b: le(a, b), ex, bx), lift(lambda a, b: le(a, b), ey, by))
    return I.alloc("Box2I", bx=bx, by=by, ex=ex, ey=ey, empty=empty)


def box_fields(I, b):
    return [I.getf(b, k) for k in ("bx", "by", "ex", "ey", "empty")]


def mk_box2i(I, args, kw):
    a = list(args)
    for k in ("minimum", "maximum", "min", "max", "corner", "dimensions", "box", "invert", "edgeHandling"):
        if k in kw:
            if k in ("invert", "edgeHandling"):
                return I.unknown("Box2I option " + k)
            a.append(kw[k])
    if not a:
        return I.alloc("Box2I", bx=ZERO, by=ZERO, ex=ZERO, ey=ZERO, empty=TRUE)
    p = a[0]
    if len(a) == 1 and p.op == "obj" and I.obj(p).cls == "Box2I":
        bx, by, ex, ey, em = box_fields(I, p)
        return newbox(I, bx, by, ex, ey, em)
    if len(a) == 1 and p.op == "obj" and I.obj(p).cls == "Box2D":
        x0, y0, x1, y1, em = b2d(I, p)
        h = num(Fraction(1, 2))
        lo = lambda v: lift(lambda u: floor_(add(u, h)) if u.op == "num" else u, v)
        hi = lambda v: lift(lambda u: add(ceil_(sub(u, h)), ONE) if u.op == "num" else u, v)
        return newbox(I, lo(x0), lo(y0), hi(x1), hi(y1), em)
    if len(a) == 2 and a[0].op == "obj" and a[1].op == "obj":
        x, y = xy(I, a[0])
        u, v = xy(I, a[1])
        c0, c1 = I.obj(a[0]).cls, I.obj(a[1]).cls
        if c0 == "Point2I" and c1 == "Extent2I":
            return newbox(I, x, y, lift_num(add, x, u), lift_num(add, y, v))
        if c0 == "Point2I" and c1 == "Point2I":
            return newbox(I, x, y, lift_num(lambda p: add(p, ONE), u), lift_num(lambda p: add(p, ONE), v))
        I.problem("Box2I(%s, %s) is not a valid call" % (c0, c1))
        return I.unknown("Box2I arguments")
    if len(a) == 1 and a[0].op == "unk":
        return a[0]
    return I.unknown("Box2I(%s)" % ", ".join(show(x)[:30] for x in a))


def b2d(I, b):
    """x0, y0, x1, y1, empty of a Box2D."""
    o = I.obj(b)
    pts = restrict(o.fields["pts"], I.G) if "pts" in o.fields else None
    if pts is None:
        return [I.getf(b, k) for k in ("x0", "y0", "x1", "y1", "empty")]

    def one(s):
        items = None
        if s.op == "seq" and not s.args:
            return tup(ZERO, ZERO, ZERO, ZERO, TRUE)
        items = seq_items(s)
        xs = map_seq(I, s, lambda p: p.args[1])
        ys = map_seq(I, s, lambda p: p.args[2])
        n = I.seq_len(s)
        em = lift(eq0, n)
        x0, y0 = hull_atom("hullmin", xs), hull_atom("hullmin", ys)
        return tup(x0, y0, add(x0, hull_atom("hullext", xs)), add(y0, hull_atom("hullext", ys)), em)
    r = lift(one, pts)
    a = I.unpack(r, 5, [False])
    return a


HULL_ALIAS = {}


def hull_atom(name, s):
    """Smallest value (or extent) of a set of numbers.  A rule may stand a
    chosen value for it."""
    s = seq(*sorted(set(s.args), key=lambda t: t.uid))
    a = atom(mk("app", name, "real", s))
    return HULL_ALIAS.get(a, a)


def mk_box2d(I, args, kw):
    if kw:
        return I.unknown("Box2D keyword arguments")
    if not args:
        return I.alloc("Box2D", pts=seq())
    p = args[0]
    if len(args) == 1 and p.op == "obj" and I.obj(p).cls == "Box2I":
        bx, by, ex, ey, em = box_fields(I, p)
        h = lambda v: lift_num(lambda u: sub(u, num(Fraction(1, 2))), v)
        return I.alloc("Box2D", x0=h(bx), y0=h(by), x1=h(ex), y1=h(ey), empty=em)
    if len(args) == 1 and p.op == "obj" and I.obj(p).cls == "Box2D":
        o = I.obj(p)
        if "pts" in o.fields:
            return I.alloc("Box2D", pts=I.getf(p, "pts"))
        x0, y0, x1, y1, em = b2d(I, p)
        return I.alloc("Box2D", x0=x0, y0=y0, x1=x1, y1=y1, empty=em)
    if len(args) == 2 and all(a.op == "obj" for a in args):
        x, y = xy(I, args[0])
        u, v = xy(I, args[1])
        if I.obj(args[1]).cls.startswith("Extent"):
            u, v = lift_num(add, x, u), lift_num(add, y, v)
        em = or_(lift(lambda a, b: le(a, b), u, x), lift(lambda a, b: le(a, b), v, y))
        return I.alloc("Box2D", x0=x, y0=y, x1=u, y1=v, empty=em)
    return I.unknown("Box2D arguments")


def norm_lon(v):
    return lift(lambda u: mod_(u, TWOPI) if u.op == "num" else u, v)


def sphere_point(I, args, kw):
    a = list(args)
    for k in ("longitude", "latitude", "units"):
        if k in kw:
            a.append(kw[k])
    if len(a) == 3:
        u = a[2]
        if u.op != "unit":
            return I.unknown("SpherePoint units")
        lon, lat = [lift_num(lambda n: mul(n, u.args[0]), tonum(x)) for x in a[:2]]
        return X("SpherePoint", "sph", norm_lon(lon), lat)
    if len(a) == 2:
        for x in a:
            for l in leafset(x):
                if l.op not in ("ang", "unk"):
                    I.problem("SpherePoint(%s) needs angles or a unit" % show(x)[:40])
                    return I.unknown("SpherePoint")
        return X("SpherePoint", "sph", norm_lon(rad(a[0])), rad(a[1]))
    if len(a) == 1:
        def one(u):
            if u.op == "x" and u.args[0] == "SpherePoint":
                return u
            if u.op == "x" and u.args[0] == "Vector3d":
                if u.args[1] == "vector":
                    return u.args[2]
                return X("SpherePoint", "fromvec", u)
            return X("SpherePoint", "fromvec", I.freeze(u))
        return lift(one, a[0])
    return I.unknown("SpherePoint()")


def lonlat(sp):
    """Longitude and latitude (numbers, radians) of a SpherePoint."""
    def one(u):
        if u.op == "x" and u.args[1] == "sph":
            return tup(u.args[2], u.args[3])
        if u.op == "x":
            lo = atom(mk("app", "lon", "real", u))
            la = atom(mk("app", "lat", "real", u))
            if single_atom(lo) not in terms.FACTS:
                terms.fact(lo, ZERO, TWOPI)
                terms.fact(la, div(neg(PI), num(2)), div(PI, num(2)))
            return tup(lo, la)
        return tup(unk("longitude"), unk("latitude"))
    r = lift(one, sp)
    return (lift(lambda t: t, r.args[1]), r.args[2]) if r.op == "tup" else (lift(lambda t: t.args[1], r),
                                                                           lift(lambda t: t.args[2], r))


def sky_to_pixel(I, wcs, c):
    """Point2D; may raise a projection error."""
    c = restrict(c, I.G)
    st = I.seqterm(c) if c.op in ("obj", "seq", "symseq", "tup") else None
    if st is not None:
        return I.newlist(map_seq(I, st, lambda e: pix_point(I, wcs, e)))
    for name in ("DomainError", "RuntimeError"):
        if getattr(I, "projection_raises", False):
            I.raise_if(B("raises:" + name, wcs, c), "lsst.pex.exceptions." + name)
    return pix_point(I, wcs, c)


def pix_point(I, wcs, c):
    """Pixel position; a shifted WCS shifts the position."""
    def one(w, u):
        dx, dy = ZERO, ZERO
        while w.op == "x" and w.args[1] == "shift":
            dx, dy = add(dx, w.args[3]), add(dy, w.args[4])
            w = w.args[2]
        return tup(add(atom(mk("app", "pixx", "real", w, u)), dx), add(atom(mk("app", "pixy", "real", w, u)), dy))
    r = X2(one, wcs, c)
    a = I.unpack(r, 2, [False])
    return point(I, "Point2D", a[0], a[1])


def X2(f, *vs):
    return lift(f, *vs)


def finite(I, v):
    """np.isfinite of a number: only projected positions can be non-finite."""
    def one(u):
        if u.op != "num":
            return batom("isfinite", u)
        r = TRUE
        for a in terms.atoms_of(u):
            if a.op == "app" and a.args[0] in ("pixx", "pixy"):
                r = and_(r, batom("isfinite", atom(a)))
            elif a.op == "app" and a.args[0] == "floatconst":
                r = FALSE
        return r
    return lift(one, v)


# ------------------------------------------------------------------ ndarray
def VI(n):
    return mk("bound", "v", n)


def vec(I, elem, n, mask=TRUE, isidx=False):
    return I.alloc("ndarray", elem=elem, n=n, mask=mask, isidx=boolc(isidx))


def table(I, st):
    return I.alloc("ndarray", seq=st)


def is_arr(I, v):
    return v.op == "obj" and I.obj(v).cls == "ndarray"


def as_vec(I, v):
    """(elem, n, mask) of an array."""
    o = I.obj(v)
    if "seq" in o.fields:
        st = restrict(o.fields["seq"], I.G)
        n = I.seq_len(st)
        return I.seq_elem(st, atom(VI(n))), n, TRUE
    return I.getf(v, "elem"), o.fields["n"], o.fields["mask"]


def vec_seq(I, v):
    o = I.obj(v)
    if "seq" in o.fields:
        return restrict(o.fields["seq"], I.G)
    e, n, m = as_vec(I, v)
    b = fresh_binder(n)
    mm = {VI(n): b}
    return seq(mk_comp(b, n, TRUE, [seg(subst(e, mm), subst(m, mm))]))


def vec_map(I, f, *vs):
    """Element-wise operation on arrays and numbers."""
    n = mask = None
    es = []
    for v in vs:
        if is_arr(I, v):
            e, k, m = as_vec(I, v)
            if n is None:
                n, mask = k, m
            elif num_const(k) == 1 and num_const(n) != 1:
                pass
            elif k is not n:
                return I.unknown("array shapes")
            elif m is not mask:
                return I.unknown("array masks")
            es.append(e)
        else:
            es.append(v)
    return vec(I, f(*es), n, mask)


# ------------------------------------------------------------------ operators
OPS = {"Add", "Sub", "Mult", "Div", "FloorDiv", "Mod", "Pow"}


def binop(I, n, x, y, node):
    x, y = restrict(x, I.G), restrict(y, I.G)
    if x.op == "unk":
        return x
    if y.op == "unk":
        return y
    nx, ny = I.numish(x), I.numish(y)
    if (nx or I.boolish(x)) and (ny or I.boolish(y)):
        return lift(lambda a, b: I.numop(n, a, b), tonum(x), tonum(y))
    if is_arr(I, x) or is_arr(I, y):
        def f(a, b):
            if n in ("BitAnd", "BitOr", "BitXor") and I.boolish(a) and I.boolish(b):
                return and_(a, b) if n == "BitAnd" else or_(a, b) if n == "BitOr" else ite(a, not_(b), b)
            if I.numish(tonum(a)) and I.numish(tonum(b)):
                return lift(lambda p, q: I.numop(n, p, q), tonum(a), tonum(b))
            return binop(I, n, a, b, node)
        return vec_map(I, f, x, y)
    if n in SETOPS and x.op == y.op == "obj" and I.obj(x).cls == I.obj(y).cls == "set":
        r = set_op(I, n, x, y)
        return r if r is not None else I.unknown("operation on sets")
    # angles and units
    if y.op == "unit" and n == "Mult":
        return ang(lift_num(lambda a: mul(a, y.args[0]), tonum(x)))
    if x.op == "unit" and n == "Mult":
        return ang(lift_num(lambda a: mul(a, x.args[0]), tonum(y)))
    if x.op == "ang" or y.op == "ang":
        if n in ("Add", "Sub") and x.op == y.op == "ang":
            return ang(I.numop(n, x.args[0], y.args[0]))
        if n == "Mult" and x.op == "ang" and ny:
            return ang(lift_num(lambda b: mul(x.args[0], b), y))
        if n == "Mult" and y.op == "ang" and nx:
            return ang(lift_num(lambda a: mul(a, y.args[0]), x))
        if n == "Div" and x.op == "ang" and ny:
            return ang(lift_num(lambda b: div(x.args[0], b), y))
        if n == "Div" and x.op == y.op == "ang":
            return div(x.args[0], y.args[0])
        if n in OPS and (x.op == "ang" or nx) and (y.op == "ang" or ny):
            # an Angle converts to float (radians)
            return lift(lambda a, b: I.numop(n, a, b), rad(x), rad(y))
        return I.unknown("angle arithmetic")
    # strings
    if n == "Mod" and is_const(x) and isinstance(cval(x), str):
        return str_percent(I, cval(x), y)
    if n == "Add" and is_strish(x) and is_strish(y):
        return strcat(x, y)
    if n == "Add" and is_bytes(x) and is_bytes(y):
        return mk("bytes", *(bytes_parts(x) + bytes_parts(y)))
    if x.op == "obj" and y.op == "obj" and n in ("Add", "Sub"):
        cx, cy = I.obj(x).cls, I.obj(y).cls
        pe = ("Point2I", "Point2D", "Extent2I", "Extent2D")
        if cx in pe and cy in pe:
            a, b = xy(I, x)
            c, d = xy(I, y)
            f = add if n == "Add" else sub
            k = "I" if cx.endswith("I") and cy.endswith("I") else "D"
            if cx.startswith("Point") and cy.startswith("Point"):
                if n == "Add":
                    I.problem("sum of two points")
                    return I.unknown("point sum")
                t = "Extent2"
            elif cx.startswith("Point") or cy.startswith("Point"):
                t = "Point2"
            else:
                t = "Extent2"
            return point(I, t + k, lift_num(f, a, c), lift_num(f, b, d))
    if x.op == "obj" and I.obj(x).cls in ("Extent2I", "Extent2D") and ny and n in ("Mult", "Div", "FloorDiv"):
        a, b = xy(I, x)
        cls = I.obj(x).cls
        if n == "Div" or not all(is_int(l) for l in leafset(y)):
            cls = "Extent2D"
        return point(I, cls, lift(lambda p, q: I.numop(n, p, q), a, y), lift(lambda p, q: I.numop(n, p, q), b, y))
    if y.op == "obj" and I.obj(y).cls in ("Extent2I", "Extent2D") and nx and n == "Mult":
        return binop(I, n, y, x, node)
    # sequences
    if n == "Mult":
        for a, b in ((x, y), (y, x)):
            if I.numish(b) and a.op in ("obj", "tup", "seq"):
                st = I.seqterm(a)
                if st is not None:
                    return repeat(I, a, st, b)
    if n == "Add":
        sx, sy = seqable(I, x), seqable(I, y)
        if sx is not None and sy is not None:
            if x.op == "obj" and I.obj(x).cls == "list":
                return I.newlist(concat(sx, sy))
            c = concat(sx, sy)
            it = seq_items(c)
            return mk("tup", "", *it) if it is not None else c
    if n == "BitOr" and x.op == "obj" and I.obj(x).cls == "dict":
        d = I.alloc("dict", d=restrict(I.obj(x).fields["d"], I.G))
        dict_update(I, d, y)
        return d
    if x.op == "obj" and isinstance(I.obj(x).cls, _interp().ClassVal):
        m = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__"}.get(n)
        f, _ = I.obj(x).cls.lookup(m) if m else (None, None)
        if f is not None:
            return I.call(mk("bm", x, f), [y], {}, node)
    if x.op == "x" or y.op == "x":
        return X(None, n, I.freeze(x), I.freeze(y))
    return I.unknown("operator %s on %s, %s" % (n, show(x)[:30], show(y)[:30]))


def seqable(I, v):
    if v.op in ("tup", "seq", "symseq") or v.op == "obj" and I.obj(v).cls == "list":
        return I.seqterm(v)
    return None


def repeat(I, a, st, n):
    c = num_const(n)
    if c is not None and c.denominator == 1 and 0 <= c <= 64 and seq_items(st) is not None:
        items = seq_items(st) * int(c)
        if a.op == "tup":
            return mk("tup", "", *items)
        return I.newlist(seq(*[seg(e) for e in items]))
    cnt = I.count(n)
    b = fresh_binder(cnt)
    r = seq(mk_comp(b, cnt, TRUE, list(st.args)))
    return I.newlist(r) if a.op == "obj" else r


def is_strish(v):
    return is_const(v) and isinstance(cval(v), str) or v.op == "x" and v.args[0] == "str"


def is_bytes(v):
    return v.op == "bytes" or is_const(v) and isinstance(cval(v), bytes)


def bytes_parts(v):
    return list(v.args) if v.op == "bytes" else [v] if cval(v) else []


def strcat(*vs):
    parts = []
    for v in vs:
        if v.op == "x" and v.args[1] == "join":
            parts += v.args[2:]
        else:
            parts.append(v)
    out = []
    for p in parts:
        if is_const(p) and out and is_const(out[-1]):
            out[-1] = const(cval(out[-1]) + cval(p))
        elif not (is_const(p) and cval(p) == ""):
            out.append(p)
    if not out:
        return const("")
    if len(out) == 1 and is_strish(out[0]):
        return out[0]
    return mk("x", "str", "join", *out)


def fmt(I, v, spec=""):
    """One formatted value."""
    if is_const(v) and isinstance(cval(v), str) and spec in ("", "s"):
        return v
    if v.op == "num" and num_const(v) is not None and is_int(v) and spec in ("", "d", "s"):
        return const(str(int(num_const(v))))
    if v.op == "x" and v.args[0] == "str" and spec in ("", "s"):
        return v
    v = I.freeze(v)
    if spec == "d" and v.op == "num" and is_int(v):
        spec = ""
    return X("str", "fmt", v, const(spec))


def str_percent(I, s, y):
    args = list(y.args[1:]) if y.op == "tup" else [y]
    if y.op == "seq":
        args = list(seq_items(y) or [])
    out, i, k = [], 0, 0
    while i < len(s):
        j = s.find("%", i)
        if j < 0:
            out.append(const(s[i:]))
            break
        out.append(const(s[i:j]))
        e = j + 1
        while e < len(s) and s[e] in "#0- +.123456789":
            e += 1
        c = s[e] if e < len(s) else ""
        if c == "%":
            out.append(const("%"))
        elif c == "(" or not c:
            return X("str", "percent", const(s), I.freeze(y))
        else:
            if k >= len(args):
                if y.op in ("tup",):
                    I.problem("not enough arguments for format string %r" % s)
                return X("str", "percent", const(s), I.freeze(y))
            spec = s[j + 1:e] + c
            out.append(lift(lambda u: fmt(I, u, "" if spec in ("s", "d") else spec), args[k])
                       if args[k].op != "ite" else X("str", "fmt", I.freeze(args[k]), const(spec)))
            k += 1
        i = e + 1
    if k < len(args) and y.op == "tup":
        I.problem("not all arguments converted for format string %r" % s)
    if any(p.op == "ite" for p in out):
        return X("str", "percent", const(s), I.freeze(y))
    return strcat(*out)


def str_format(I, s, args, kw):
    import string
    out, auto = [], 0
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError:
        I.problem("bad format string %r" % s)
        return X("str", "format", const(s))
    for lit, name, spec, conv in fields:
        if lit:
            out.append(const(lit))
        if name is None:
            continue
        base = name.split(".")[0].split("[")[0]
        if base == "":
            k, auto = auto, auto + 1
        elif base.isdigit():
            k = int(base)
        else:
            k = base
        if isinstance(k, int):
            if k >= len(args):
                I.problem("format string %r needs more arguments" % s)
                return X("str", "format", const(s))
            v = args[k]
        else:
            if k not in kw and "**" not in kw:
                I.problem("format string %r needs argument %r" % (s, k))
                return X("str", "format", const(s))
            v = kw.get(k, NONE)
        if base != name or v.op == "ite":
            out.append(X("str", "fmt", I.freeze(v), const(name + (spec or ""))))
        else:
            out.append(fmt(I, v, (spec or "") + (("!" + conv) if conv else "")))
    return strcat(*out)


def compare_any(I, n, a, b):
    a, b = restrict(a, I.G), restrict(b, I.G)
    if I.numish(a) and I.numish(b):
        return lift(lambda x, y: I.numcmp(n, x, y), a, b)
    return I.cases([a, b], lambda x, y: compare(I, n, x, y, I.node))


def compare(I, n, x, y, node):
    x, y = restrict(x, I.G), restrict(y, I.G)
    if n == "NotEq":
        # package classes may define __ne__
        for a in (x, y):
            if a.op == "obj" and isinstance(I.obj(a).cls, _interp().ClassVal):
                f, _ = I.obj(a).cls.lookup("__ne__")
                if f is not None:
                    other = y if a is x else x
                    r = I.call(mk("bm", a, f), [other], {}, node)
                    return I.cases([r], lambda u: not_(ident(I, x, y)) if u is NOTIMPL else u)
        r = compare(I, "Eq", x, y, node)
        return lift(lambda u: unk_bool(u) if u.op == "unk" else u, not_(I.truth(r)))
    if (I.numish(x) or I.boolish(x)) and (I.numish(y) or I.boolish(y)):
        return lift(lambda a, b: I.numcmp(n, a, b), tonum(x), tonum(y))
    if x.op == "unk" or y.op == "unk":
        return batom("unknown", x if x.op == "unk" else y)
    if is_arr(I, x) or is_arr(I, y):
        return vec_map(I, lambda a, b: I.truth(compare_any(I, n, a, b)), x, y)
    if x.op == "ang" or y.op == "ang":
        if (x.op == "ang" or I.numish(x)) and (y.op == "ang" or I.numish(y)):
            return lift(lambda a, b: I.numcmp(n, a, b), rad(x), rad(y))
        return FALSE if n == "Eq" else I.unknown("comparison of angle")
    if n == "Eq":
        return equal(I, x, y, node)
    if x.op == y.op == "obj" and I.obj(x).cls == I.obj(y).cls == "set":
        a, b = set_items(I, x), set_items(I, y)
        if a is not None and b is not None:
            if n in ("Gt", "GtE"):
                a, b, n = b, a, "Lt" if n == "Gt" else "LtE"
            r = subset(I, a, b)
            return r if n == "LtE" else and_(r, not_(subset(I, b, a)))
    if x.op == "tup" and y.op == "tup" and n in ("Lt", "LtE", "Gt", "GtE"):
        r = boolc((len(x.args) < len(y.args)) if n in ("Lt", "Gt") else (len(x.args) <= len(y.args)))
        for a, b in reversed(list(zip(x.args[1:], y.args[1:]))):
            e = I.truth(compare_any(I, "Eq", a, b))
            s = I.truth(compare_any(I, "Lt" if n in ("Lt", "LtE") else "Gt", a, b))
            r = ite(e, r, s)
        return r
    if is_const(x) and is_const(y):
        try:
            a, b = cval(x), cval(y)
            return boolc({"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b,
                          "GtE": lambda: a >= b}[n]())
        except TypeError:
            I.raise_if(TRUE, "TypeError")
            return FALSE
    if NONE in (x, y):
        I.raise_if(TRUE, "TypeError")
        return FALSE
    return B("cmp" + n, I.freeze(x), I.freeze(y))


def unk_bool(u):
    return batom("unknown", u)


def ident(I, x, y):
    return I.is_(x, y)


def equal(I, x, y, node):
    IC = _interp().ClassVal
    if x.op == "obj" and isinstance(I.obj(x).cls, IC) or y.op == "obj" and isinstance(I.obj(y).cls, IC):
        for a, b in ((x, y), (y, x)):
            if a.op == "obj" and isinstance(I.obj(a).cls, IC):
                f, _ = I.obj(a).cls.lookup("__eq__")
                if f is not None:
                    r = I.call(mk("bm", a, f), [b], {}, node)

                    def fb(u, a=a, b=b):
                        if u is not NOTIMPL:
                            return u
                        if b.op == "obj" and isinstance(I.obj(b).cls, IC) and b is not a:
                            f2, _ = I.obj(b).cls.lookup("__eq__")
                            if f2 is not None and a is x:
                                r2 = I.call(mk("bm", b, f2), [a], {}, node)
                                return lift(lambda w: FALSE if w is NOTIMPL else w, r2)
                        return FALSE
                    return I.cases([r], fb)
        if x.op == y.op == "obj" and isinstance(I.obj(x).cls, IC) and I.obj(x).cls.isconfig() and \
                I.obj(y).cls is I.obj(x).cls:
            r = TRUE
            for k in sorted(set(I.obj(x).fields) | set(I.obj(y).fields)):
                if k.startswith("@"):
                    continue
                r = and_(r, I.truth(compare_any(I, "Eq", I.getf(x, k), I.getf(y, k))))
            return r
        return ident(I, x, y)
    if is_const(x) and is_const(y):
        return boolc(x is y)
    if x.op == "tup" and y.op == "tup":
        if len(x.args) != len(y.args):
            return FALSE
        r = TRUE
        for a, b in zip(x.args[1:], y.args[1:]):
            r = and_(r, I.truth(compare_any(I, "Eq", a, b)))
        return r
    if x.op == "obj" and y.op == "obj":
        if x is y:
            return TRUE
        cx, cy = I.obj(x).cls, I.obj(y).cls
        pe = {"Point2I": "P", "Point2D": "P", "Extent2I": "E", "Extent2D": "E"}
        if cx in pe and cy in pe:
            if pe[cx] != pe[cy]:
                return FALSE
            a, b = xy(I, x)
            c, d = xy(I, y)
            return and_(lift(lambda p, q: eq0(sub(p, q)), a, c), lift(lambda p, q: eq0(sub(p, q)), b, d))
        if cx == cy == "Box2I":
            fx, fy = box_fields(I, x), box_fields(I, y)
            r = TRUE
            for p, q in zip(fx[:4], fy[:4]):
                r = and_(r, lift(lambda u, v: eq0(sub(u, v)), p, q))
            return or_(and_(fx[4], fy[4]), and_(not_(fx[4]), not_(fy[4]), r))
        if cx != cy:
            return FALSE
    if x.op == "obj" and I.obj(x).cls == "set" or y.op == "obj" and I.obj(y).cls == "set":
        a, b = (x, y) if x.op == "obj" and I.obj(x).cls == "set" else (y, x)
        st = I.seqterm(a)
        it = seq_items(st) if st is not None else None
        if it is not None and all(is_const(u) for u in it):
            s = mk("set", *sorted(set(it), key=lambda u: str(cval(u))))
            if b.op == "obj" and I.obj(b).cls == "set":
                st2 = I.seqterm(b)
                it2 = seq_items(st2) if st2 is not None else None
                if it2 is not None and all(is_const(u) for u in it2):
                    return boolc(set(it) == set(it2))
                p, q = set_items(I, a), set_items(I, b)
                if p is not None and q is not None:
                    return and_(subset(I, p, q), subset(I, q, p))
            return B("seteq", I.freeze(b), s)
        if b.op != "obj" and b.op != "x":
            return FALSE
        p, q = set_items(I, a), set_items(I, b)
        if p is not None and q is not None and I.obj(b).cls == "set":
            return and_(subset(I, p, q), subset(I, q, p))
    sx, sy = seqable(I, x), seqable(I, y)
    if sx is not None and sy is not None:
        if (x.op == "tup") != (y.op == "tup") and not (x.op in ("seq",) or y.op in ("seq",)):
            return FALSE
        a, b = seq_items(sx), seq_items(sy)
        if a is not None and b is not None:
            if len(a) != len(b):
                return FALSE
            r = TRUE
            for p, q in zip(a, b):
                r = and_(r, I.truth(compare_any(I, "Eq", p, q)))
            return r
        return same(I.freeze(sx), I.freeze(sy))
    kinds = {"num": 0, "const": 1, "tup": 2, "ang": 3, "py": 4, "ext": 4, "unit": 5}
    if x.op in kinds and y.op in kinds and kinds[x.op] != kinds[y.op]:
        return FALSE
    if NONE in (x, y):
        z = y if x is NONE else x
        return I.is_(z, NONE)
    for p, q in ((x, y), (y, x)):
        if is_const(p) and (q.op in ("obj", "ang", "seq") or q.op == "x" and q.args[0] not in (
                "str", None, "any") and isinstance(cval(p), str) and not q.args[1].startswith("opt:")):
            return FALSE
    if x.op in ("py", "ext", "mod") and y.op in ("py", "ext", "mod"):
        return boolc(x is y)
    fx, fy = I.freeze(x), I.freeze(y)
    if fx.op == "bytes" and fy.op == "bytes" or fx.op == "num" or fy.op == "num":
        return B("eq", *sorted([fx, fy], key=lambda u: u.uid)) if fx is not fy else TRUE
    return same(fx, fy)


def set_items(I, v):
    """[(guard, value)] of a set with finitely many listed elements."""
    if v.op != "obj" or I.obj(v).cls not in ("set", "list"):
        return None
    st = restrict(I.obj(v).fields["seq"], I.G)
    if st.op != "seq" or len(st.args) > 24 or any(s.op != "seg" for s in st.args):
        return None
    return [(s.args[0], s.args[1]) for s in st.args]


def distinct(I, st):
    """The elements of a set, each once, in order of insertion; None if they
    cannot be told apart."""
    if st.op != "seq":
        return None
    if all(s.op == "seg" and is_const(s.args[1]) and s.args[0] is TRUE for s in st.args):
        return seq(*[seg(x) for x in dict.fromkeys(s.args[1] for s in st.args)])
    if len(st.args) > 24 or any(s.op != "seg" for s in st.args):
        return None
    out = []
    for s in st.args:
        g, v = s.args
        for h, u in [(x.args[0], x.args[1]) for x in out]:
            g = and_(g, not_(and_(h, I.truth(compare_any(I, "Eq", u, v)))))
        if g is not FALSE:
            out.append(seg(v, g))
    return seq(*out)


def among(I, x, items):
    r = FALSE
    for g, u in items:
        r = or_(r, and_(g, I.truth(compare_any(I, "Eq", x, u))))
    return r


def subset(I, a, b):
    r = TRUE
    for g, x in a:
        r = and_(r, or_(not_(g), among(I, x, b)))
    return r


SETOPS = {"union": "|", "intersection": "&", "difference": "-", "BitOr": "|", "BitAnd": "&", "Sub": "-",
          "symmetric_difference": "^", "BitXor": "^"}


def set_op(I, name, x, y):
    """A new set, or None."""
    a, b = set_items(I, x), set_items(I, y)
    op = SETOPS.get(name)
    if a is None or b is None or op is None:
        return None
    out = []
    if op in "&-":
        for g, u in a:
            e = among(I, u, b)
            out.append((and_(g, e if op == "&" else not_(e)), u))
    elif op == "|":
        out = a + b
    else:
        out = [(and_(g, not_(among(I, u, b))), u) for g, u in a] + [(and_(g, not_(among(I, u, a))), u) for g, u in b]
    return I.alloc("set", seq=seq(*[seg(u, g) for g, u in out if g is not FALSE]))


def contains(I, x, y, node):
    x, y = restrict(x, I.G), restrict(y, I.G)
    if y.op == "unk":
        return batom("unknown", y)
    if y.op == "obj" and isinstance(I.obj(y).cls, _interp().ClassVal):
        f, _ = I.obj(y).cls.lookup("__contains__")
        if f is not None:
            return I.truth(I.call(mk("bm", y, f), [x], {}, node))
    if y.op == "range":
        lo, hi, st = y.args
        if num_const(st) == 1 and I.numish(x):
            if all(is_int(l) for l in leafset(x)):
                return and_(lift(lambda a, b: le(b, a), x, lo), lift(lambda a, b: lt(a, b), x, hi))
    d = dict_term(I, y)
    if d is not None:
        return dict_lookup(I, d, x)[0]
    if is_const(y) and isinstance(cval(y), str) and is_const(x):
        return boolc(cval(x) in cval(y))
    if y.op == "obj" and I.obj(y).cls in ("Box2I", "Box2D"):
        return box_contains(I, y, x)
    if y.op == "obj" and I.obj(y).cls == "set":
        st = restrict(I.obj(y).fields["seq"], I.G)
    else:
        st = I.seqterm(y)
    if st is not None and st.op == "seq":
        r = FALSE
        for s in st.args:
            if s.op == "seg":
                e = I.truth(compare_any(I, "Eq", x, s.args[1]))
                r = or_(r, and_(s.args[0], e))
            elif s.op == "comp":
                if len(s.args) == 4 and s.args[3].op == "seg":
                    b, g, e = comp_at(I, s)
                    from loops import exists_at
                    r = or_(r, exists_at(I, b, s.args[1], and_(g, I.truth(compare_any(I, "Eq", x, e)))))
                else:
                    r = or_(r, B("in", I.freeze(x), seq(s)))
            else:
                r = or_(r, B("in", I.freeze(x), I.freeze(seq(s))))
        return r
    return B("in", I.freeze(x), I.freeze(y))


def box_contains(I, b, p):
    """Box.contains(point or box)."""
    if p.op == "unk":
        return batom("unknown", p)
    if p.op != "obj":
        return B("contains", I.freeze(b), I.freeze(p))
    cb = I.obj(b).cls
    cp = I.obj(p).cls
    L = lambda a, c: lift(lambda u, v: le(u, v) if u.op == v.op == "num" else batom("unknown", unk("le")), a, c)
    LT = lambda a, c: lift(lambda u, v: lt(u, v) if u.op == v.op == "num" else batom("unknown", unk("lt")), a, c)
    if cb == "Box2I":
        bx, by, ex, ey, em = box_fields(I, b)
        if cp == "Point2I":
            x, y = xy(I, p)
            return and_(not_(em), L(bx, x), L(by, y), LT(x, ex), LT(y, ey))
        if cp == "Box2I":
            cx, cy, fx, fy, fe = box_fields(I, p)
            return or_(fe, and_(not_(em), L(bx, cx), L(by, cy), L(fx, ex), L(fy, ey)))
        if cp == "Point2D":
            I.problem("Box2I.contains(Point2D) is not a valid call")
            return batom("unknown", I.unknown("Box2I.contains(%s)" % cp))
    if cb == "Box2D":
        x0, y0, x1, y1, em = b2d(I, b)
        if cp in ("Point2D", "Point2I"):
            x, y = xy(I, p)
            return and_(not_(em), L(x0, x), L(y0, y), LT(x, x1), LT(y, y1))
        if cp == "Box2D":
            u0, v0, u1, v1, e2 = b2d(I, p)
            return or_(e2, and_(not_(em), L(x0, u0), L(y0, v0), L(u1, x1), L(v1, y1)))
    return batom("unknown", I.unknown("contains"))


# ------------------------------------------------------------------ items
def index_check(I, k, n):
    """Raise IndexError unless -n <= k < n; returns the non-negative index."""
    if n.op != "num" or not I.numish(k):
        return k
    low = lift(lambda u: lt(u, neg(n)), k)
    high = lift(lambda u: le(n, u), k)
    I.raise_if(or_(low, high), "IndexError")
    k = restrict(k, I.G)
    ng = restrict(lift(lambda u: lt(u, ZERO), k), I.G)
    return ite(ng, lift_num(lambda u: add(u, n), k), k)


def getitem(I, o, k, node):
    if o.op == "unk":
        return o
    if k.op == "unk":
        return k
    if o.op == "py":
        c = o.args[0]
        if isinstance(c, _interp().RegistryVal):
            if is_const(k) and cval(k) in c.items:
                return c.items[cval(k)][0]
            return I.unknown("registry item")
        return o            # generic alias
    if o.op == "ext":
        return o
    if k.op == "slice":
        return getslice(I, o, k)
    if o.op == "obj":
        ob = I.obj(o)
        if ob.cls == "dict":
            d = restrict(ob.fields["d"], I.G)
            has, val = dict_lookup(I, d, k)
            I.raise_if(not_(has), "KeyError")
            return restrict(val, I.G) if I.G is not FALSE else UNDEF
        if ob.cls in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
            k2 = index_check(I, k, num(2))
            return restrict(lift(lambda u: ite(eq0(u), I.getf(o, "x"), I.getf(o, "y")), k2), I.G)
        if ob.cls == "ndarray":
            return arr_get(I, o, k)
        if ob.cls == "regfield":
            return regfield_item(I, o, k)
    if o.op == "x" and o.args[0] == "mapping":
        I.raise_if(not_(B("haskey", o, k)), "KeyError")
        return mapval(o, k)
    if o.op == "x":
        r = x_getitem(I, o, k)
        if r is not None:
            return r
    if o.op == "tup":
        n = len(o.args) - 1
        if I.boolish(k):
            k = tonum(k)
        if not I.numish(k):
            I.raise_if(TRUE, "TypeError")
            return UNDEF
        k = index_check(I, k, num(n))
        if I.G is FALSE:
            return UNDEF
        return restrict(lift(lambda u: pick(list(o.args[1:]), u), k), I.G)
    st = I.seqterm(o)
    if st is not None:
        if not I.numish(tonum(k)):
            I.problem("sequence index %s" % show(k)[:40])
            return I.unknown("sequence index")
        k = index_check(I, tonum(k), I.seq_len(st))
        if I.G is FALSE:
            return UNDEF
        return lift(lambda u: I.seq_elem(st, u), k) if k.op == "ite" else I.seq_elem(st, k)
    if o.op == "x":
        return X(None, "item", o, I.freeze(k))
    return I.unknown("subscript of " + show(o)[:40])


def pick(items, u):
    r = items[-1]
    for i in range(len(items) - 2, -1, -1):
        r = ite(eq0(sub(u, num(i))), items[i], r)
    return r


def getslice(I, o, k):
    lo, hi, st = k.args
    s = I.seqterm(o)
    if s is None or num_const(st) not in (None, 1) or (st is not NONE and num_const(st) != 1):
        if s is not None and num_const(st) == -1 and lo is NONE and hi is NONE:
            it = seq_items(s)
            if it is not None:
                r = seq(*[seg(e) for e in reversed(it)])
                return I.newlist(r) if o.op == "obj" else mk("tup", "", *reversed(it))
        if o.op == "x":
            return X(o.args[0], "slice", o, I.freeze(k))
        return I.unknown("slice")

    def wrap(r):
        if o.op == "tup":
            it = seq_items(r)
            return mk("tup", "", *it) if it is not None else r
        if o.op == "obj" and I.obj(o).cls == "ndarray":
            return table(I, r)
        return I.newlist(r) if o.op == "obj" else r
    if lo is NONE and hi is NONE:
        return wrap(s)
    it = seq_items(s)
    cl = num_const(lo) if lo is not NONE else None
    ch = num_const(hi) if hi is not NONE else None
    if it is not None and (lo is NONE or cl is not None) and (hi is NONE or ch is not None):
        return wrap(seq(*[seg(e) for e in it[int(cl) if cl is not None else None:
                                             int(ch) if ch is not None else None]]))
    n = I.seq_len(s)

    def clampneg(v):
        v = restrict(v, I.G)
        ng = restrict(lift(lambda u: lt(u, ZERO), v), I.G)
        return ite(ng, lift_num(lambda u: add(u, n), v), v)
    lo2 = ZERO if lo is NONE else clampneg(lo)
    hi2 = n if hi is NONE else clampneg(hi)

    def one(a, b):
        if a.op != "num" or b.op != "num":
            return unk("slice")
        if num_const(a) == 0 and b is n:
            return s
        return mk("symseq", mk("prefix", s, a, b), I.seq_kind(s) or "any" if s.op == "seq" else s.args[1],
                  sub(b, a))
    r = lift(one, lo2, hi2)
    if r.op == "ite":
        return I.cases([r], wrap)
    return wrap(r)


def arr_get(I, o, k):
    ob = I.obj(o)
    if k.op == "obj" and I.obj(k).cls == "ndarray":
        ke, kn, km = as_vec(I, k)
        if I.boolish(ke):
            e, n, m = as_vec(I, o)
            if kn is not n or km is not m:
                return I.unknown("boolean index of another shape")
            return vec(I, e, n, and_(m, ke))
        if I.obj(k).fields.get("isidx") is TRUE:
            e, n, m = as_vec(I, o)
            if n is not kn:
                return I.unknown("index of another shape")
            return vec(I, e, n, km, o_isidx(I, o))
        # gather from a table
        st = I.seqterm(o)
        if st is None:
            return I.unknown("gather")
        n = I.seq_len(st)
        cond = restrict(lift(lambda u: lt(u, ZERO), ke), km)
        ke2 = ite(cond, lift_num(add, ke, n), ke)
        return vec(I, lift(lambda u: I.seq_elem(st, u), ke2), kn, km)
    if I.numish(k):
        st = I.seqterm(o)
        if st is not None and not I.unmasked_false(o) if hasattr(I, "unmasked_false") else st is not None:
            if "seq" in ob.fields or ob.fields["mask"] is TRUE:
                kk = index_check(I, k, I.seq_len(st))
                if I.G is FALSE:
                    return UNDEF
                return lift(lambda u: I.seq_elem(st, u), kk)
        return I.unknown("array element")
    return I.unknown("array index")


def o_isidx(I, o):
    return I.obj(o).fields.get("isidx") is TRUE


def setitem(I, o, k, v, node):
    if o.op == "unk" or k.op == "unk":
        return
    if o.op == "obj":
        ob = I.obj(o)
        if ob.cls == "dict":
            dict_set(I, o, k, v)
            return
        if ob.cls in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
            k2 = index_check(I, k, num(2))
            if I.G is FALSE:
                return
            ox, oy = I.getf(o, "x"), I.getf(o, "y")
            isx = restrict(lift(eq0, k2), I.G)
            G0 = I.G
            for f, c in (("x", isx), ("y", not_(isx))):
                I.G = and_(G0, c)
                if I.G is not FALSE:
                    I.setf(o, f, v)
            I.G = G0
            return
        if ob.cls == "ndarray":
            return arr_set(I, o, k, v)
        if ob.cls == "list":
            st = restrict(ob.fields["seq"], I.G)
            if st.op not in ("seq", "symseq"):
                I.setf(o, "seq", I.unknown("list store"))
                return
            if k.op == "slice":
                s2 = I.seqterm(v)
                if k.args == (NONE, NONE, NONE) and s2 is not None:
                    I.setf(o, "seq", s2)
                else:
                    I.setf(o, "seq", I.unknown("slice store"))
                return
            n = I.seq_len(st)
            k = index_check(I, tonum(k), n)
            if I.G is FALSE:
                return
            items = seq_items(st)
            c = num_const(k)
            if items is not None and c is not None:
                items = list(items)
                whole = seq_items(ob.fields["seq"]) if ob.fields["seq"].op == "seq" else None
                if whole is not None and len(whole) == len(items):
                    # a guarded store keeps the sequence one sequence
                    I.writes.append((ob.id, "seq", I.G, v, ob.fields["seq"], I.loc()))
                    whole = list(whole)
                    whole[int(c)] = ite(I.relG(ob), v, whole[int(c)])
                    ob.fields["seq"] = seq(*[seg(e) for e in whole])
                    return
                items[int(c)] = v
                I.setf(o, "seq", seq(*[seg(e) for e in items]))
                return
            if items is not None and k.op in ("num", "ite"):
                I.setf(o, "seq", seq(*[seg(ite(lift(lambda u: eq0(sub(u, num(i))), k), v, e))
                                       for i, e in enumerate(items)]))
                return
            full = ob.fields["seq"]
            if k.op == "num" and full.op in ("seq", "symseq"):
                # a guarded store keeps the sequence one sequence
                I.writes.append((ob.id, "seq", I.G, v, full, I.loc()))
                ob.fields["seq"] = seq(mk("stored", full, k, v, I.relG(ob)))
                return
            if k.op != "num":
                k0 = k
                I.setf(o, "seq", lift(lambda u: seq(mk("stored", st, u, v, TRUE)), k0))
                return
            I.setf(o, "seq", seq(mk("stored", st, k, v, TRUE)))
            return
        if isinstance(ob.cls, str):
            I.problem("%s does not support item assignment" % ob.cls)
            return
    if o.op == "tup":
        I.problem("tuple does not support item assignment")
        return
    I.event("setitem", [o, k, v], {})


def arr_set(I, o, k, v):
    ob = I.obj(o)
    if k.op == "slice" and k.args == (NONE, NONE, NONE):
        e, n, m = as_vec(I, o)
        km = m
    elif k.op == "obj" and I.obj(k).cls == "ndarray":
        ke, kn, km0 = as_vec(I, k)
        e, n, m = as_vec(I, o)
        if kn is not n:
            I.setf(o, "elem", I.unknown("masked store"))
            return
        if I.boolish(ke):
            km = and_(km0, ke)
        elif I.obj(k).fields.get("isidx") is TRUE:
            km = km0
        else:
            I.setf(o, "elem", I.unknown("scatter"))
            return
    else:
        st = I.seqterm(o)
        I.setf(o, "seq", I.unknown("array store"))
        return
    if is_arr(I, v):
        ve, vn, vm = as_vec(I, v)
        if vn is not n or (vm is not km and and_(vm, km) is not km):
            val = I.unknown("masked store of another shape")
        else:
            val = ve
    else:
        val = v
    if "seq" in ob.fields:
        I.writes.append((ob.id, "seq", I.G, v, ob.fields["seq"], I.loc()))
        ob.fields.pop("seq")
        ob.fields.update(n=n, mask=m, isidx=FALSE)
        ob.fields["elem"] = e
    I.setf(o, "elem", ite(km, val, e))


from models_lib import *          # noqa: E402,F401,F403
