"""Models of external functions, attributes and methods (see models.py)."""
import builtins
from fractions import Fraction

import terms
from terms import (T, mk, const, TRUE, FALSE, NONE, is_const, cval, boolc, unk, num, num_const, ZERO, ONE, PI, sym,
                   atom, is_int, add, sub, mul, div, neg, power, floor_, ceil_, mod_, ite, not_, and_, or_, lt, le,
                   eq0, same, batom, seq, seg, seq_items, fresh_binder, mk_comp, subst, single_atom, restrict, lift,
                   lift_num, show, leaves, leafset, all_atoms, max_, min_, abs_, comp_binder, atom_bdd, relu)
from models import *              # noqa: F401,F403
from models import _interp

# names that exist in the compiled packages (for the linkage rule)
GEOM = set("""Angle AngleUnit radians degrees hours arcminutes arcseconds milliarcseconds PI TWOPI HALFPI ONE_OVER_PI
SQRTPI INVSQRTPI ROOT2 degToRad radToDeg radToArcsec radToMas arcsecToRad masToRad isAngle
Point Point2I Point2D Point3I Point3D PointI PointD PointBase CoordinateBase CoordinateExpr
Extent Extent2I Extent2D Extent3I Extent3D ExtentI ExtentD ExtentBase
Box Box2I Box2D BoxI BoxD Interval IntervalI IntervalD SpherePoint averageSpherePoint
LinearTransform AffineTransform makeAffineTransformFromTriple convexHull polynomials
testUtils Scale""".split())
BOX2I = set("""getMin getMinX getMinY getMax getMaxX getMaxY getBegin getBeginX getBeginY getEnd getEndX getEndY
getDimensions getWidth getHeight getArea getSlices isEmpty contains overlaps intersects isDisjointFrom grow shift
flipLR flipTB include clip erodedBy dilatedBy shiftedBy reflectedAbout expandedTo clippedTo getCorners toString
makeCenteredBox getCenter getCenterX getCenterY x y minimum maximum begin end dimensions width height area
beginX beginY endX endY minX minY maxX maxY EXPAND SHRINK EdgeHandlingEnum Point Extent Element Interval
getIntX""".split())
BOX2D = BOX2I | {"EPSILON", "INVALID"}
PTEXT = set("""getX getY setX setY x y asPair asTuple eq ne lt le gt ge distanceSquared shift scale
asExtent asPoint computeNorm computeSquaredNorm truncate""".split())

SHAPE_REAL = {"PointI": "Point2I", "PointD": "Point2D", "ExtentI": "Extent2I", "ExtentD": "Extent2D",
              "BoxI": "Box2I", "BoxD": "Box2D"}

EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def check_import(I, base, name):
    if base == "lsst.geom" and name not in GEOM:
        I.problem("lsst.geom has no name %r" % name)


def ext_attr(I, o, name):
    full = o.args[0] + "." + name
    if o.args[0] in ("numpy", "math"):
        if name == "pi":
            return PI
        if name in ("inf", "Inf"):
            return terms.infinity()
        if name in ("nan", "NaN"):
            return atom(mk("app", "floatconst", "real", const(name.lower())))
        if name == "tau" and o.args[0] == "math":
            return TWOPI
    if o.args[0] == "lsst.geom":
        if name in UNITS:
            return mk("unit", UNITS[name])
        if name in SHAPE_REAL:
            return mk("ext", "lsst.geom." + SHAPE_REAL[name])
        if name in ("PI", "TWOPI", "HALFPI"):
            return {"PI": PI, "TWOPI": TWOPI, "HALFPI": div(PI, num(2))}[name]
        if name not in GEOM:
            I.problem("lsst.geom has no name %r" % name)
    if o.args[0] == "math" and name in ("isfinite", "isnan", "isinf"):
        return mk("ext", "numpy." + name)
    if o.args[0] == "numpy":
        import_np = {"abs": "absolute", "mod": "remainder"}
        return mk("ext", "numpy." + import_np.get(name, name))
    return mk("ext", full)


def resolve_ext(I, t):
    """Constants imported by name (from lsst.geom import degrees)."""
    n = t.args[0]
    if "." in n:
        base, name = n.rsplit(".", 1)
        if base in ("lsst.geom", "numpy", "math"):
            return ext_attr(I, mk("ext", base), name)
    return t


# ------------------------------------------------------------------ calls
def call(I, fn, args, kw, node):
    if fn.op == "unk":
        return fn
    if fn.op == "ext":
        fn = resolve_ext(I, fn)
    if fn.op == "ext":
        n = fn.args[0]
        f = EXT.get(n)
        if f is not None:
            return f(I, args, kw, node)
        if n.startswith("builtins."):
            b = getattr(builtins, n[9:], None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return mk("exc", n[9:], I.loc())
        if n.startswith("lsst.pex.exceptions."):
            return mk("exc", n, I.loc())
        if n.split(".")[-1].endswith("Error"):
            return mk("exc", n, I.loc())
        if n.startswith("numpy."):
            r = np_generic(I, n[6:], args, kw)
            if r is not None:
                return r
        if n in PURE:
            return X(PURE[n], n, *([I.freeze(a) for a in args] + [tup(const(k), I.freeze(kw[k])) for k in
                                                                  sorted(kw)]))
        I.event("call:" + n, args, kw)
        return I.unknown("external call " + n)
    if fn.op == "bmx":
        return call_method(I, fn.args[0], fn.args[1], args, kw, node)
    if fn.op == "extsuper":
        return call_extsuper(I, fn.args[0], fn.args[1], args, kw, node)
    if fn.op == "partial":
        return I.call(fn.args[0], args, kw, node)
    if fn.op == "deco":
        return args[0] if args else fn
    if fn.op == "getter":
        if cval(fn.args[0]) == "attr" and is_const(fn.args[1]):
            r = args[0]
            for part in cval(fn.args[1]).split("."):
                r = I.getattr(r, part, node)
            return r
        return I.getitem(args[0], fn.args[1], node)
    if fn.op == "starcall":
        return I.call(fn.args[0], list(I.unpack(args[0], len(args[0].args) - 1, [False])) if args[0].op == "tup"
                      else args, {}, node)
    if fn.op == "x":
        if fn.args[0] in ("logger", "butler"):
            I.event("call", [fn] + args, kw)
            return X("any", "opt:result", fn)
        if fn.args[1] == "decorator":
            return args[0]
        I.event("call", [fn] + args, kw)
        return I.unknown("call of " + show(fn)[:40])
    if fn.op == "py":
        return I.unknown("call of " + str(fn.args[0])[:40])
    if fn.op in ("num", "const", "tup", "seq", "ang", "unit"):
        I.problem("%s is not callable" % show(fn)[:40])
    return I.unknown("call of " + show(fn)[:40])


# external functions that are pure and fully determined by their arguments
PURE = {
    "lsst.sphgeom.LonLat": "LonLat", "lsst.sphgeom.NormalizedAngle": "NormalizedAngle",
    "lsst.sphgeom.Angle": "sphAngle", "lsst.sphgeom.Box": "sphBox",
    "lsst.sphgeom.UnitVector3d": "Vector3d", "lsst.sphgeom.Vector3d": "Vector3d",
    "lsst.sphgeom.NormalizedAngleInterval": "sphInt", "lsst.sphgeom.AngleInterval": "sphInt",
    "hpgeom.boundaries": None,
}


def kwarg(args, kw, i, name, default=None):
    if name in kw:
        return kw[name]
    if i is not None and i < len(args):
        return args[i]
    return default


def f_num1(name, kind="real", exact=None):
    def f(I, args, kw, node):
        if len(args) != 1:
            if args and all(k in ("dtype", "out", "where") for k in kw):
                pass
            return I.unknown(name + " arguments")
        v = tonum(args[0])

        def el(u):
            u = tonum(u)
            if u.op == "ite":
                return lift(el1, u)
            return el1(u)

        def el1(u):
            if u.op == "ang":
                u = u.args[0]
            if u.op != "num":
                return u if u.op == "unk" else X(None, name, I.freeze(u))
            if exact is not None:
                r = exact(u)
                if r is not None:
                    return r
            return A(name, kind, u)
        if v.op == "obj" and is_arr(I, v):
            return vec_map(I, el, v)
        if v.op == "obj" or v.op == "tup":
            st = I.seqterm(v)
            if st is not None:
                return vec_map(I, el, table(I, st))
        return el(v)
    return f


def even(name):
    def f(u):
        m, c = terms.lead(u)
        if c is not None and c < 0:
            return atom(mk("app", name, "real", neg(u)))
        if num_const(u) == 0:
            return ONE
        return atom(mk("app", name, "real", u))
    return f


def odd(name):
    def f(u):
        m, c = terms.lead(u)
        if num_const(u) == 0:
            return ZERO
        if c is not None and c < 0:
            return neg(atom(mk("app", name, "real", neg(u))))
        return atom(mk("app", name, "real", u))
    return f


def sqrt_(u):
    c = num_const(u)
    if c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return num(Fraction(a, b))
    return None


for _n, _e in (("cos", even("cos")), ("sin", odd("sin")), ("tan", odd("tan")), ("sqrt", sqrt_), ("acos", None),
               ("asin", None), ("atan", None), ("exp", None), ("log", None), ("log2", None), ("log10", None)):
    EXT["math." + _n] = EXT["numpy." + _n] = f_num1(_n, "real", _e)
for _a, _b in (("arccos", "acos"), ("arcsin", "asin"), ("arctan", "atan")):
    EXT["numpy." + _a] = EXT["math." + _b]
for _n, _f in (("fabs", abs_), ("absolute", abs_)):
    EXT["math." + _n] = EXT["numpy." + _n] = f_num1(_n, "real", _f)
EXT["builtins.abs"] = lambda I, a, k, n: (ang(lift(abs_, rad(a[0]))) if all(l.op == "ang" for l in leafset(a[0]))
                                          else EXT["numpy.absolute"](I, a, k, n))
for _n, _f in (("floor", floor_), ("ceil", ceil_), ("trunc", terms.trunc_), ("fix", terms.trunc_)):
    EXT["math." + _n] = EXT["numpy." + _n] = f_num1(_n, "int", _f)
for _n in ("rint", "round", "around"):
    EXT["numpy." + _n] = None
    del EXT["numpy." + _n]
for _n in ("deg2rad", "radians"):
    EXT["numpy." + _n] = EXT["math." + _n] = f_num1(_n, "real", lambda u: mul(u, DEG))
for _n in ("rad2deg", "degrees"):
    EXT["numpy." + _n] = EXT["math." + _n] = f_num1(_n, "real", lambda u: div(u, DEG))
del EXT["math.deg2rad"], EXT["math.rad2deg"]


@ext("math.atan2", "numpy.arctan2", "math.hypot", "numpy.hypot")
def _atan2(I, a, kw, node):
    if all(I.numish(x) for x in a):
        return A("atan2", "real", *a)
    return X(None, "atan2", *[I.freeze(x) for x in a])


@ext("math.fmod", "numpy.fmod")
def _fmod(I, a, kw, node):
    op = lambda o, x, y: I.models.binop(I, o, x, y, node)
    q = EXT["numpy.trunc"](I, [op("Div", a[0], a[1])], {}, node)
    return op("Sub", a[0], op("Mult", a[1], q))


@ext("numpy.remainder")
def _npmod(I, a, kw, node):
    return I.cases([a[0], a[1]], lambda x, y: I.models.binop(I, "Mod", x, y, node))


@ext("numpy.isfinite")
def _isfinite(I, a, kw, node):
    v = a[0]
    if v.op == "obj" and I.obj(v).cls in ("Point2D", "Point2I"):
        return table(I, seq(seg(finite(I, I.getf(v, "x"))), seg(finite(I, I.getf(v, "y")))))
    if v.op == "obj" and is_arr(I, v):
        return vec_map(I, lambda e: finite(I, e), v)
    st = I.seqterm(v) if v.op in ("obj", "tup", "seq") else None
    if st is not None:
        return table(I, map_seq(I, st, lambda e: finite(I, e)))
    if v.op == "ang":
        return finite(I, v.args[0])
    return finite(I, v)


@ext("numpy.isnan", "numpy.isinf")
def _isnan(I, a, kw, node):
    f = _isfinite(I, a, kw, node)
    # nan and inf are not told apart by the package: one abstract value "not finite", split by an atom
    nm = node.func.attr if hasattr(node, "func") and hasattr(node.func, "attr") else getattr(
        getattr(node, "func", None), "id", "isnan")
    kind = batom("non-finite is nan", I.freeze(a[0]))

    def one(u):
        return and_(not_(u), kind if nm == "isnan" else not_(kind))
    if f.op == "obj":
        return vec_map(I, lambda e: one(e), f)
    return one(f)


# ------------------------------------------------------------------ builtins
@ext("builtins.len")
def _len(I, a, kw, node):
    return I.length(a[0])


@ext("builtins.int", "numpy.int32", "numpy.int64", "numpy.intp", "operator.index")
def _int(I, a, kw, node):
    if not a:
        return ZERO
    return I.cases([a[0]], lambda v: _int1(I, v))


def _int1(I, v):
    if I.boolish(v):
        return tonum(v)
    if I.numish(v):
        return lift(lambda u: terms.trunc_(u), v)
    if v.op == "ang":
        return lift(lambda u: terms.trunc_(u), v.args[0])
    if is_const(v) and isinstance(cval(v), str):
        try:
            return num(int(cval(v)))
        except ValueError:
            I.raise_if(TRUE, "ValueError")
            return UNDEF
    if v is NONE:
        I.raise_if(TRUE, "TypeError")
        return UNDEF
    if v.op == "unk":
        return v
    if v.op == "x":
        return A("int", "int", v)
    if v.op == "obj" and is_arr(I, v):
        return arr_method(I, v, "item", [], {}, None)
    return I.unknown("int of " + show(v)[:30])


@ext("builtins.float", "numpy.float64", "numpy.float32")
def _float(I, a, kw, node):
    if not a:
        return ZERO

    def one(v):
        if I.boolish(v):
            return tonum(v)
        if I.numish(v):
            return v
        if v.op == "ang":
            return v.args[0]
        if v.op == "unk":
            return v
        if is_const(v) and isinstance(cval(v), str):
            return num(float(cval(v)))
        if v is NONE:
            I.raise_if(TRUE, "TypeError")
            return UNDEF
        if v.op == "x":
            return A("float", "real", v)
        return I.unknown("float of " + show(v)[:30])
    return I.cases([a[0]], one)


@ext("builtins.bool", "numpy.bool_", "operator.truth")
def _bool(I, a, kw, node):
    return I.truth(a[0]) if a else FALSE


@ext("builtins.str", "builtins.repr", "builtins.ascii", "builtins.format")
def _str(I, a, kw, node):
    if not a:
        return const("")
    v = a[0]
    if len(a) == 1 and is_const(v) and isinstance(cval(v), str) and getattr(node.func, "id", "") == "str":
        return v
    if v.op == "obj" and isinstance(I.obj(v).cls, _interp().ClassVal):
        for n in ("__str__", "__repr__"):
            f, _ = I.obj(v).cls.lookup(n)
            if f is not None:
                return I.call(mk("bm", v, f), [], {}, node)
    if v.op == "num" and len(a) == 1:
        return fmt(I, v)
    return X("str", "str", *[I.freeze(x) for x in a])


@ext("builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum", "numpy.fmin", "numpy.fmax")
def _minmax(I, a, kw, node):
    nm = node.func.attr if hasattr(node.func, "attr") else node.func.id
    nm = I.extname if getattr(I, "extname", None) else nm
    mx = "max" in nm
    return minmax(I, mx, a, kw, node)


def minmax(I, mx, a, kw, node):
    f = max_ if mx else min_
    if len(a) >= 2:
        if any(x.op == "obj" and is_arr(I, x) for x in a):
            return vec_map(I, lambda *e: fold(I, f, e), *a)
        if "key" not in kw:
            if all(I.numish(tonum(x)) for x in a):
                return fold(I, f, [tonum(x) for x in a])
            if all(l.op == "ang" for x in a for l in leafset(x)):
                return ang(fold(I, f, [rad(x) for x in a]))
            if all(l.op in ("ang", "num") for x in a for l in leafset(x)):
                return I.unknown("min/max of angle and number")
        st = seq(*[seg(x) for x in a])
    else:
        st = to_seq(I, a[0])
    if st is None:
        return I.unknown("min/max")
    if "key" in kw or not numeric_seq(I, st):
        key = kw.get("key")
        g = (lambda e: e) if key is None or key is NONE else (lambda e: I.call(key, [e], {}, node))
        if mx:
            g0 = g

            def g(e):
                v = g0(e)
                if v.op == "x" and v.args[1] == "numpy.dot":
                    v = atom(mk("app", "dot", "real", *v.args[2:]))
                return neg(v) if v.op == "num" else unk("maximum of what is not a number")
        k = argmin_index(I, st, g)
        if k is None:
            return I.unknown("minimum of a sequence")
        return I.seq_elem(st, k)
    items = seq_items(st)
    if items is not None:
        if not items:
            if "default" in kw:
                return kw["default"]
            I.raise_if(TRUE, "ValueError")
            return UNDEF
        return fold(I, f, [tonum(x) for x in items])
    n = I.seq_len(st)
    em = lift(eq0, n)
    k = I.seq_kind(st) if st.op == "seq" else st.args[1]
    r = atom(mk("app", "maxof" if mx else "minof", k, st))
    if "default" in kw:
        return ite(em, kw["default"], r)
    I.raise_if(em, "ValueError")
    return r


def numeric_seq(I, st):
    items = seq_items(st) if st.op == "seq" else None
    if items is not None:
        return all(I.numish(tonum(x)) for x in items)
    return (I.seq_kind(st) if st.op == "seq" else st.args[1]) in ("int", "real")


def fold(I, f, vs):
    r = vs[0]
    for v in vs[1:]:
        r = lift_num(f, r, v)
    return r


@ext("builtins.sum", "numpy.sum", "math.fsum")
def _sum(I, a, kw, node):
    start = kwarg(a, kw, 1, "start", ZERO) if not (hasattr(node.func, "attr")) else ZERO
    v = restrict(a[0], I.G)
    if v.op == "ite" and not I.numish(v):
        return I.cases([v], lambda u: _sum(I, [u] + list(a[1:]), kw, node))
    st = I.seqterm(v)
    if st is None:
        return X(None, "sum", I.freeze(v)) if v.op == "x" else I.unknown("sum")
    items = seq_items(st)
    if items is not None and not all(I.numish(tonum(x)) for x in items):
        r = start
        for x in items:
            r = I.cases([r, x], lambda p, q: binop(I, "Add", p, q, node))
        return r
    t = total(I, st)
    if not I.numish(t):
        return t
    return lift_num(add, tonum(start), t)


@ext("builtins.divmod")
def _divmod(I, a, kw, node):
    x, y = tonum(a[0]), tonum(a[1])
    if not (I.numish(x) and I.numish(y)):
        return I.unknown("divmod")
    return tup(lift(lambda p, q: I.numop("FloorDiv", p, q), x, y), lift(lambda p, q: I.numop("Mod", p, q), x, y))


@ext("numpy.divmod")
def _npdivmod(I, a, kw, node):
    return _divmod(I, a, kw, node)


@ext("numpy.floor_divide")
def _npfloordiv(I, a, kw, node):
    return I.cases(a[:2], lambda x, y: binop(I, "FloorDiv", x, y, node))


@ext("builtins.pow", "math.pow", "numpy.power")
def _pow(I, a, kw, node):
    return I.cases(a[:2], lambda x, y: binop(I, "Pow", x, y, node))


@ext("builtins.round")
def _round(I, a, kw, node):
    v = a[0]
    if len(a) == 1 and I.numish(v):
        return A("roundeven", "int", v)
    return A("round", "real", *[I.freeze(x) for x in a]) if I.numish(v) else I.unknown("round")


@ext("builtins.isinstance", "builtins.issubclass")
def _isinstance(I, a, kw, node):
    cl = restrict(a[1], I.G)
    if cl.op == "obj":
        it = seq_items(I.seqterm(cl) or seq())
        cls = list(it or [])
    else:
        cls = list(cl.args[1:]) if cl.op == "tup" else [cl]

    def one(v):
        r = FALSE
        for c in cls:
            r = or_(r, isinst(I, v, c))
        return r
    v = restrict(a[0], I.G)
    if I.numish(v) or I.boolish(v):
        return lift(one, v)
    return I.cases([v], lambda u: lift(one, u) if u.op == "ite" else one(u))


TYPEMAP = {
    "Iterable": ("tup", "list", "dict", "set", "seq", "str", "ndarray", "bytes", "map"),
    "Sequence": ("tup", "list", "str", "bytes"),
    "Sized": ("tup", "list", "dict", "set", "str", "Extent2I", "Extent2D", "Point2I", "Point2D", "ndarray", "map"),
    "Container": ("tup", "list", "dict", "set", "str", "map"),
    "Collection": ("tup", "list", "dict", "set", "str", "map"),
    "Mapping": ("dict", "map"), "MutableMapping": ("dict",), "dict": ("dict",),
    "list": ("list",), "MutableSequence": ("list",), "tuple": ("tup",), "set": ("set",), "str": ("str",),
    "bytes": ("bytes",),
    "Number": ("int", "real", "bool"), "Complex": ("int", "real", "bool"), "Real": ("int", "real", "bool"),
    "Rational": ("int", "bool"), "Integral": ("int", "bool"), "int": ("int", "bool"), "integer": (),
    "float": ("real",), "floating": (), "bool": ("bool",), "NoneType": ("none",), "complex": (),
    "Angle": ("ang",), "SpherePoint": ("SpherePoint",), "ndarray": ("ndarray",), "SkyWcs": ("SkyWcs",),
    "Box2I": ("Box2I",), "Box2D": ("Box2D",), "Extent2I": ("Extent2I",), "Extent2D": ("Extent2D",),
    "Point2I": ("Point2I",), "Point2D": ("Point2D",), "Callable": ("func",), "Hashable": (
        "tup", "str", "int", "real", "bool", "none", "bytes"),
}


def vtype(I, v):
    if v is TRUE or v is FALSE:
        return "bool"
    if v is NONE:
        return "none"
    if is_const(v):
        return type(cval(v)).__name__
    if v.op == "num":
        return "int" if is_int(v) else "real"
    if v.op == "tup":
        return "tup"
    if v.op in ("seq", "symseq", "range", "zip", "enum", "mapped"):
        return "seq"
    if v.op == "ang":
        return "ang"
    if v.op == "bytes":
        return "bytes"
    if v.op in ("py", "bm", "bmx", "ext"):
        return "func"
    if v.op == "obj":
        c = I.obj(v).cls
        return c if isinstance(c, str) else c
    if v.op == "x":
        t = v.args[0]
        return {"mapping": "map", "seq": "seq", "coords": "seq"}.get(t, t)
    return None


def isinst(I, v, c):
    IC = _interp().ClassVal
    t = vtype(I, v)
    if c.op == "unk" or v.op == "unk":
        return batom("unknown", c if c.op == "unk" else v)
    if c.op == "py" and isinstance(c.args[0], IC):
        if isinstance(t, IC):
            return boolc(c.args[0] in t.mro())
        if v.op == "tup":
            return boolc(v.args[0] == c.args[0].name)
        if t in ("foreign", "none", "int", "real", "str", "bool") or t is not None and v.op != "x":
            return FALSE
        return B("isinstance", v, const(c.args[0].name))
    if c.op == "x" and c.args[1] == "Or":
        return or_(isinst(I, v, c.args[2]), isinst(I, v, c.args[3]))
    if c.op == "ext":
        n = c.args[0].split(".")[-1]
        if n == "object":
            return TRUE
        if isinstance(t, IC):
            if n in TYPEMAP:
                if n == "Iterable":
                    return boolc(t.lookup("__iter__")[0] is not None)
                if n == "Sized":
                    return boolc(t.lookup("__len__")[0] is not None)
                if n == "Hashable":
                    return TRUE
                return FALSE
            return boolc(any(b.split(".")[-1] == n for b in t.extbases()))
        if n in TYPEMAP:
            if t == "foreign":
                return FALSE
            if t in (None, "any") or (v.op == "x" and v.args[1].startswith("opt:")):
                return B("isinstance", v, const(n))
            return boolc(t in TYPEMAP[n])
        return B("isinstance", I.freeze(v), const(n))
    return batom("unknown", I.unknown("isinstance"))


@ext("builtins.type")
def _type(I, a, kw, node):
    def one(v):
        if v.op == "obj" and isinstance(I.obj(v).cls, _interp().ClassVal):
            return py_(I.obj(v).cls)
        if v.op == "tup" and v.args[0]:
            c = I.named_class(v.args[0])
            if c is not None:
                return py_(c)
        t = vtype(I, v)
        if isinstance(t, str):
            return mk("ext", "builtins." + {"tup": "tuple", "real": "float"}.get(t, t))
        return I.unknown("type")
    return I.cases([a[0]], one)


def py_(c):
    return mk("py", c)


@ext("builtins.tuple")
def _tuple(I, a, kw, node):
    if not a:
        return mk("tup", "")

    def one(v):
        if v.op == "tup":
            return mk("tup", "", *v.args[1:])
        st = to_seq(I, v)
        if st is None:
            return I.unknown("tuple of " + show(v)[:40])
        it = seq_items(st)
        return mk("tup", "", *it) if it is not None else st
    return I.cases([a[0]], one)


def to_seq(I, v):
    """Sequence term of any iterable value, evaluating lazy iterators."""
    st = I.seqterm(v)
    if st is not None:
        return st
    d = I.domain(v)
    if d is None:
        return None
    if d[2] is not None:
        return seq(*[seg(x, g) for g, x in d[2]])
    if isinstance(d[0], tuple):
        return d[0][1]
    from loops import gen_seq
    return gen_seq(I, d[0], d[1])


@ext("builtins.list", "builtins.set", "builtins.frozenset", "collections.deque")
def _list(I, a, kw, node):
    nm = node.func.id if hasattr(node, "func") and hasattr(node.func, "id") else "list"
    cls = "set" if nm in ("set", "frozenset") else "list"
    if not a:
        return I.alloc(cls, seq=seq())

    def one(v):
        st = to_seq(I, v)
        if st is None:
            if v.op == "unk":
                return v
            return I.unknown("list of " + show(v)[:40])
        return I.alloc(cls, seq=st)
    return I.cases([a[0]], one)


@ext("builtins.dict", "types.MappingProxyType", "collections.OrderedDict")
def _dict(I, a, kw, node):
    d = I.alloc("dict", d=seq())
    if a:
        v = restrict(a[0], I.G)
        if v.op == "ite":
            return I.cases([v], lambda u: _dict(I, [u], kw, node))
        dict_update(I, d, v)
    for k, v in kw.items():
        if k == "**":
            dict_update(I, d, v)
        else:
            dict_set(I, d, const(k), v)
    return d


@ext("builtins.range")
def _range(I, a, kw, node):
    a = [tonum(x) for x in a]
    for x in a:
        for l in leafset(x):
            if l.op == "num" and not is_int(l):
                I.problem("range() of a non-integer")
    if len(a) == 1:
        r = (ZERO, a[0], ONE)
    elif len(a) == 2:
        r = (a[0], a[1], ONE)
    else:
        r = tuple(a[:3])
    return mk("range", *r)


@ext("numpy.arange")
def _arange(I, a, kw, node):
    r = _range(I, a, {}, node)
    st = I.seqterm(r)
    return table(I, st) if st is not None else I.unknown("arange")


@ext("builtins.zip")
def _zip(I, a, kw, node):
    if any(x.op == "star" for x in a):
        return I.unknown("zip(*...)")
    return mk("zip", *a)


@ext("builtins.enumerate")
def _enum(I, a, kw, node):
    return mk("enum", a[0], kwarg(a, kw, 1, "start", ZERO))


@ext("builtins.map")
def _map(I, a, kw, node):
    return mk("mapped", a[0], a[1]) if len(a) == 2 else mk("mapped", py_star(I, a[0]), mk("zip", *a[1:]))


def py_star(I, f):
    return mk("starcall", f)


@ext("builtins.iter")
def _iter(I, a, kw, node):
    return a[0]


@ext("builtins.next")
def _next(I, a, kw, node):
    st = to_seq(I, a[0])
    if st is None:
        return I.unknown("next")
    from loops import first_of
    return first_of(I, st, kwarg(a, kw, 1, "default"))


@ext("builtins.reversed")
def _reversed(I, a, kw, node):
    st = to_seq(I, a[0])
    if st is None:
        return I.unknown("reversed")
    it = seq_items(st)
    if it is not None:
        return seq(*[seg(x) for x in reversed(it)])
    if st.op == "seq" and all(s.op == "seg" for s in st.args):
        return seq(*reversed(st.args))
    return mk("symseq", mk("reversed", st), (I.seq_kind(st) if st.op == "seq" else st.args[1]) or "any",
              I.seq_len(st))


@ext("builtins.filter")
def _filter(I, a, kw, node):
    from loops import gen_filter
    st = to_seq(I, a[1])
    if st is None:
        return I.unknown("filter")
    return gen_filter(I, st, lambda e: I.truth(I.call(a[0], [e], {}, node)) if a[0] is not NONE else I.truth(e))


@ext("builtins.sorted", "numpy.sort")
def _sorted(I, a, kw, node):
    st = to_seq(I, a[0])
    if st is None:
        return I.unknown("sorted")
    return I.newlist(sort_seq(I, st, kw, node))


def sort_seq(I, st, kw, node):
    it = seq_items(st)
    if it is not None and len(it) <= 1:
        return st
    if "reverse" in kw and kw["reverse"] is not FALSE:
        return I.unknown("reverse sort")
    key = kw.get("key", NONE)
    if not hasattr(I, "sortkeys"):
        I.sortkeys = {}
    kt = NONE
    if key is not NONE:
        I.sortkeys[key] = lambda e: I.call(key, [e], {}, node)
        kt = key
    if it is not None and all(is_const(x) for x in it) and key is NONE:
        return seq(*[seg(x) for x in sorted(it, key=cval)])
    return mk("symseq", mk("sorted", st, kt), "any", I.seq_len(st))


@ext("builtins.any", "builtins.all", "numpy.any", "numpy.all", "numpy.alltrue")
def _anyall(I, a, kw, node):
    nm = node.func.attr if hasattr(node.func, "attr") else node.func.id
    return anyall(I, "any" in nm, a[0])


def anyall(I, isany, v):
    if I.boolish(v):
        return v
    st = to_seq(I, v)
    if st is None:
        return batom("unknown", I.unknown("any/all"))
    r = FALSE
    for s in st.args if st.op == "seq" else ():
        if s.op == "seg":
            t = I.truth(s.args[1])
            r = or_(r, and_(s.args[0], t if isany else not_(t)))
        elif s.op == "comp" and len(s.args) == 4 and s.args[3].op == "seg":
            from models import comp_at
            from loops import exists_at
            b, g, e = comp_at(I, s)
            t = I.truth(e)
            r = or_(r, exists_at(I, b, s.args[1], and_(g, t if isany else not_(t))))
        else:
            return batom("unknown", I.unknown("any/all"))
    if st.op != "seq":
        return batom("unknown", I.unknown("any/all"))
    return r if isany else not_(r)


@ext("builtins.hasattr")
def _hasattr(I, a, kw, node):
    v, n = restrict(a[0], I.G), a[1]
    if is_const(n) and v.op == "obj" and isinstance(I.obj(v).cls, _interp().ClassVal):
        o = I.obj(v)
        if o.cls.lookup(cval(n))[0] is not None or cval(n) in o.fields:
            return TRUE
        if not o.cls.extbases():
            return FALSE
    if is_const(n):
        return B("hasattr", I.freeze(v), n)
    return batom("unknown", I.unknown("hasattr"))


@ext("builtins.getattr")
def _getattr(I, a, kw, node):
    if is_const(a[1]):
        if len(a) > 2:
            h = _hasattr(I, a, kw, node)
            G0 = I.G
            I.G = and_(G0, h)
            v = I.getattr(a[0], cval(a[1]), node) if I.G is not FALSE else a[2]
            I.G = G0
            return ite(h, v, a[2])
        return I.getattr(a[0], cval(a[1]), node)
    return I.unknown("getattr")


@ext("builtins.setattr", "object.__setattr__")
def _setattr(I, a, kw, node):
    if is_const(a[1]):
        I.setattr(a[0], cval(a[1]), a[2], node)
        return NONE
    return I.unknown("setattr")


@ext("builtins.hash")
def _hash(I, a, kw, node):
    v = restrict(a[0], I.G)
    if v.op == "obj" and isinstance(I.obj(v).cls, _interp().ClassVal):
        for k in I.obj(v).cls.mro():
            if not isinstance(k, _interp().ClassVal):
                continue
            f = k.attrs.get("__hash__")
            if f is not None and f is not NONE:
                return I.call(mk("bm", v, f), [], {}, node)
            if f is NONE or "__eq__" in k.attrs:
                # a class that defines only __eq__ is not hashable
                I.raise_if(TRUE, "TypeError")
                return unk("hash")
    return A("hash", "int", I.freeze(v))


@ext("builtins.id")
def _id(I, a, kw, node):
    return A("id", "int", a[0])


@ext("builtins.print", "warnings.warn")
def _print(I, a, kw, node):
    return NONE


@ext("builtins.callable")
def _callable(I, a, kw, node):
    return boolc(a[0].op in ("py", "bm", "bmx", "ext"))


@ext("builtins.super")
def _super(I, a, kw, node):
    return I.unknown("super alias")


@ext("builtins.property")
def _property(I, a, kw, node):
    g = kwarg(a, kw, 0, "fget", NONE)
    s = kwarg(a, kw, 1, "fset", None)
    return mk("py", _interp().PropVal(g, None if s is NONE else s))


@ext("builtins.staticmethod", "builtins.classmethod")
def _static(I, a, kw, node):
    f = a[0].args[0]
    if node.func.id == "staticmethod":
        f.static = True
    else:
        f.classm = True
    return a[0]


@ext("builtins.object")
def _object(I, a, kw, node):
    return X("foreign", "object", const(I.callcount))


@ext("functools.lru_cache", "functools.cache")
def _lru_cache(I, a, kw, node):
    f = a[0] if a else NONE
    if f.op == "py" and isinstance(f.args[0], _interp().FuncVal):
        return I.decorate(mk("ext", "functools.lru_cache"), f, f.args[0], None, node)
    return mk("ext", "functools.lru_cache")


@ext("functools.partial")
def _partial(I, a, kw, node):
    return mk("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items())))


@ext("functools.reduce")
def _reduce(I, a, kw, node):
    st = to_seq(I, a[1])
    it = seq_items(st) if st is not None else None
    if it is None:
        return I.unknown("reduce")
    it = ([a[2]] if len(a) > 2 else []) + it
    r = it[0]
    for x in it[1:]:
        r = I.call(a[0], [r, x], {}, node)
    return r


@ext("operator.itemgetter", "operator.attrgetter")
def _itemgetter(I, a, kw, node):
    return mk("getter", const("attr" if "attr" in ast_name(node) else "item"), a[0])


def ast_name(node):
    f = node.func
    return f.attr if hasattr(f, "attr") else f.id


@ext("itertools.product")
def _product(I, a, kw, node):
    from loops import gen_product
    sts = [to_seq(I, x) for x in a]
    if any(s is None for s in sts) or kw:
        return I.unknown("product")
    return gen_product(I, sts)


@ext("itertools.chain", "itertools.chain.from_iterable")
def _chain(I, a, kw, node):
    if ast_name(node) == "from_iterable":
        st = to_seq(I, a[0])
        it = seq_items(st) if st is not None else None
        if it is None:
            return I.unknown("chain")
        a = it
    sts = [to_seq(I, x) for x in a]
    if any(s is None for s in sts):
        return I.unknown("chain")
    return concat(*sts)


@ext("itertools.accumulate", "numpy.cumsum")
def _cumsum(I, a, kw, node):
    if kw and list(kw) != ["initial"]:
        if not (list(kw) == ["dtype"]):
            return I.unknown("accumulate")
    st = I.seqterm(a[0])
    if st is None or len(a) > 1:
        return I.unknown("cumsum")
    if "initial" in kw:
        st = concat(seq(seg(kw["initial"])), st)
    it = seq_items(st)
    if it is not None:
        out, t = [], ZERO
        for x in it:
            t = lift_num(add, t, x)
            out.append(seg(t))
        r = seq(*out)
    else:
        k = I.seq_kind(st) if st.op == "seq" else st.args[1]
        r = mk("symseq", mk("cumsum", st), k, I.seq_len(st))
    return table(I, r)


@ext("copy.copy", "copy.deepcopy")
def _copy(I, a, kw, node):
    deep = ast_name(node) == "deepcopy"
    return I.cases([a[0]], lambda v: copy_value(I, v, deep, {}))


def copy_value(I, v, deep, memo):
    if v.op == "obj":
        if v in memo:
            return memo[v]
        o = I.obj(v)
        f = None
        if isinstance(o.cls, _interp().ClassVal):
            f, _ = o.cls.lookup("__deepcopy__" if deep else "__copy__")
            if f is not None:
                return I.call(mk("bm", v, f), [NONE] if deep else [], {}, I.node)
        n = I.alloc(o.cls)
        memo[v] = n
        for k, u in o.fields.items():
            u = restrict(u, I.G)
            I.obj(n).fields[k] = copy_deep(I, u, memo) if deep else u
        return n
    if v.op in ("tup", "seq") and deep:
        return copy_deep(I, v, memo)
    if v.op == "x" and v.args[0] == "ndarray3":
        return mk("x", "ndarray3", "copy", v)
    return v


def copy_deep(I, u, memo):
    if not I.has_objs(u):
        return u
    m = {}
    for s in all_atoms(u):
        if s.op == "obj":
            m[s] = copy_value(I, s, True, memo)
    return subst(u, m)


# ------------------------------------------------------------------ numpy
NPDTYPES = {"int32", "int64", "float64", "float32", "bool_", "intp"}


def np_generic(I, n, a, kw):
    if n in ("float32",):
        return _float(I, a, kw, None)
    if n in ("dot", "take", "round", "max", "min", "array", "zeros", "where", "cross", "linalg.norm",
             "arange", "set_printoptions", "matmul", "argsort", "inner", "outer", "average", "mean", "identity",
             "eye"):
        return X(None, "numpy." + n, *([I.freeze(x) for x in a] + [tup(const(k), I.freeze(kw[k]))
                                                                   for k in sorted(kw)]))
    return None


@ext("numpy.atleast_1d", "numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.ascontiguousarray",
     "numpy.ravel", "numpy.copy", "numpy.squeeze")
def _nparray(I, a, kw, node):
    def one(v):
        nm = ast_name(node)
        if v.op == "obj" and is_arr(I, v):
            e, n, m = (None, None, None)
            o = I.obj(v)
            if nm in ("array", "copy") or "dtype" in kw or len(a) > 1:
                r = I.alloc("ndarray")
                for k, u in o.fields.items():
                    I.obj(r).fields[k] = restrict(u, I.G)
                dt = kwarg(a, kw, 1, "dtype")
                return cast(I, r, dt) if dt is not None else r
            return v
        st = I.seqterm(v) if not (I.numish(v) or v.op == "unk") else None
        if st is not None:
            r = table(I, st)
            dt = kwarg(a, kw, 1, "dtype") if nm in ("array", "asarray") else kw.get("dtype")
            return cast(I, r, dt) if dt is not None else r
        if I.numish(v):
            if nm == "atleast_1d":
                return table(I, seq(seg(v)))
            return v
        if v.op == "unk":
            return v
        return X(None, "numpy." + nm, I.freeze(v))
    return I.cases([a[0]], one)


def cast(I, v, dt):
    dt = restrict(dt, I.G)
    n = dt.args[0] if dt.op == "ext" else cval(dt) if is_const(dt) else ""
    n = str(n).split(".")[-1]
    if n.startswith("int") or n in ("intp", "long", "i4", "i8", "uint64", "uint32"):
        def f(e):
            e = tonum(e)
            return lift(lambda u: terms.trunc_(u) if u.op == "num" else u, e)
        if "seq" in I.obj(v).fields:
            st = I.seqterm(v)
            k = I.seq_kind(st) if st.op == "seq" else st.args[1]
            if k == "int":
                return table(I, st)
        return vec_map(I, f, v)
    if n.startswith("float") or n in ("double", "f8", "None"):
        return vec_map(I, tonum, v) if "elem" in I.obj(v).fields else v
    if n in ("bool", "bool_"):
        return vec_map(I, lambda e: I.truth(e), v)
    return I.unknown("dtype " + n)


def length_arg(I, v):
    v = restrict(v, I.G)
    if v.op == "tup" and len(v.args) == 2:
        return v.args[1]
    return v


@ext("numpy.full", "numpy.zeros", "numpy.ones", "numpy.empty")
def _npfull(I, a, kw, node):
    nm = ast_name(node)
    sh = length_arg(I, kwarg(a, kw, 0, "shape"))
    if not I.numish(sh):
        return X(None, "numpy." + nm, *[I.freeze(x) for x in a])
    v = {"zeros": ZERO, "ones": ONE}.get(nm)
    if nm == "full":
        v = kwarg(a, kw, 1, "fill_value")
    if nm == "empty":
        v = unk("uninitialised array element")
    return vec(I, v, sh)


@ext("numpy.full_like", "numpy.zeros_like", "numpy.ones_like", "numpy.empty_like")
def _nplike(I, a, kw, node):
    nm = ast_name(node)
    if not (a[0].op == "obj" and is_arr(I, a[0])):
        return I.unknown(nm)
    e, n, m = as_vec(I, a[0])
    v = {"zeros_like": ZERO, "ones_like": ONE}.get(nm)
    if nm == "full_like":
        v = kwarg(a, kw, 1, "fill_value")
    if v is None:
        v = unk("uninitialised array element")
    return vec(I, v, n, m)


@ext("numpy.where", "numpy.flatnonzero", "numpy.nonzero")
def _npwhere(I, a, kw, node):
    if len(a) == 3:
        return vec_map(I, lambda c, x, y: ite(c, x, y), *a)
    v = a[0]
    if v.op == "obj" and is_arr(I, v):
        e, n, m = as_vec(I, v)
        r = vec(I, atom(VI(n)), n, and_(m, I.truth(e)), True)
        return r if ast_name(node) == "flatnonzero" else tup(r)
    return I.unknown("where")


@ext("numpy.logical_and", "numpy.logical_or", "numpy.logical_not", "numpy.bitwise_and", "numpy.bitwise_or",
     "numpy.invert", "numpy.logical_xor")
def _nplogic(I, a, kw, node):
    nm = ast_name(node)
    f = {"logical_and": and_, "bitwise_and": and_, "logical_or": or_, "bitwise_or": or_, "logical_not": not_,
         "invert": not_, "logical_xor": lambda p, q: ite(p, not_(q), q)}[nm]
    if any(x.op == "obj" for x in a):
        return vec_map(I, lambda *e: f(*[I.truth(x) for x in e]), *a)
    return f(*[I.truth(x) for x in a])


@ext("numpy.insert", "numpy.append", "numpy.concatenate", "numpy.hstack")
def _npinsert(I, a, kw, node):
    nm = ast_name(node)
    if nm == "insert" and len(a) == 3 and num_const(a[1]) == 0:
        s, v = I.seqterm(a[0]), a[2]
        if s is not None:
            sv = I.seqterm(v) if not I.numish(v) else seq(seg(v))
            return table(I, concat(sv, s))
    if nm == "append" and len(a) == 2:
        s, v = I.seqterm(a[0]), a[1]
        if s is not None:
            sv = I.seqterm(v) if not I.numish(v) else seq(seg(v))
            if sv is not None:
                return table(I, concat(s, sv))
    if nm in ("concatenate", "hstack"):
        o = I.seqterm(a[0])
        it = seq_items(o) if o is not None else None
        if it is not None:
            ss = [I.seqterm(x) for x in it]
            if all(s is not None for s in ss):
                return table(I, concat(*ss))
    return I.unknown(nm)


@ext("numpy.argmin", "numpy.argmax")
def _argmin(I, a, kw, node):
    nm = ast_name(node)
    sign = neg if nm == "argmax" else (lambda u: u)
    u = a[0]
    g = lambda x: x
    while u.op == "x" and len(u.args) == 3 and u.args[1] in ("absolute", "fabs", "negative", "USub"):
        g, u = (lambda x, h=g, f=abs_ if "abs" in u.args[1] else neg: h(f(x))), u.args[2]
    if u.op == "x" and u.args[1] in ("numpy.dot", "numpy.inner") and len(u.args) == 4 and not kw:
        # rows of a list of vectors times a vector
        rows, v = u.args[2], u.args[3]
        while rows.op == "x" and len(rows.args) == 3 and rows.args[1] in (
                "numpy.array", "numpy.asarray", "numpy.stack", "numpy.vstack"):
            rows = rows.args[2]
        if rows.op == "x":
            n = atom(mk("len", rows))
            b = fresh_binder(n)
            from loops import comp
            k = mk("app", "dot", "real", X(None, "item", rows, b), v)
            return atom(mk("app", "argmin", "int", comp(I, b, n, TRUE, [seg(sign(g(atom(k))))])))
    st = I.seqterm(u)
    if st is not None and not kw:
        k = argmin_index(I, st, lambda e: sign(e) if e.op == "num" else (e if nm == "argmin" else unk("argmax")))
        if k is not None:
            return k
    return I.unknown(nm) if st is not None else X(None, "numpy." + nm, *[I.freeze(x) for x in a])


@ext("numpy.finfo", "numpy.iinfo", "sys.float_info")
def _finfo(I, a, kw, node):
    return X("finfo", "finfo", *[I.freeze(x) for x in a])


def arr_method(I, v, name, a, kw, node):
    if name == "astype":
        return cast(I, v, kwarg(a, kw, 0, "dtype"))
    if name in ("copy", "ravel", "flatten", "squeeze"):
        r = I.alloc("ndarray")
        for k, u in I.obj(v).fields.items():
            I.obj(r).fields[k] = restrict(u, I.G)
        return r
    if name == "tolist":
        return I.newlist(I.seqterm(v))
    if name in ("sum",):
        return total(I, I.seqterm(v))
    if name in ("max", "min"):
        return minmax(I, name == "max", [v], {}, node)
    if name in ("any", "all"):
        return anyall(I, name == "any", v)
    if name == "cumsum":
        return EXT["numpy.cumsum"](I, [v], {}, node)
    if name == "nonzero":
        return _npwhere(I, [v], {}, node)
    if name == "item":
        st = I.seqterm(v)
        it = seq_items(st) if st is not None else None
        if it is not None and len(it) == 1:
            return it[0]
        return I.unknown("item")
    if name == "fill":
        arr_set(I, v, mk("slice", NONE, NONE, NONE), a[0])
        return NONE
    return I.unknown("ndarray." + name)


# ------------------------------------------------------------------ lsst.geom
for _c in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
    def _mk(I, a, kw, node, c=_c):
        return make_pt(I, c, a, kw)
    EXT["lsst.geom." + _c] = _mk


def make_pt(I, c, a, kw):
    if "x" in kw or "y" in kw:
        a = list(a) + [kw[k] for k in ("x", "y") if k in kw]
    if not a:
        if c.startswith("Extent") or c.startswith("Point"):
            return point(I, c, ZERO, ZERO)
    if len(a) == 1:
        def one(p):
            if I.numish(p):
                return point(I, c, p, p)
            if p.op == "unk":
                return p
            if p.op == "obj" and I.obj(p).cls in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
                x, y = xy(I, p)
                src = I.obj(p).cls
                if c.endswith("I") and src.endswith("D"):
                    if c.startswith("Extent"):
                        I.problem("Extent2I from %s is not a valid call" % src)
                        return I.unknown("Extent2I(D)")
                    ok = and_(finite(I, x), finite(I, y))
                    return point(I, c, ite(ok, round_half(x), A("garbage", "int", I.freeze(p), const("x"))),
                                 ite(ok, round_half(y), A("garbage", "int", I.freeze(p), const("y"))))
                return point(I, c, x, y)
            st = I.seqterm(p)
            if st is not None:
                x, y = xy(I, p)
                return point(I, c, x, y)
            return I.unknown(c + " of " + show(p)[:30])
        return I.cases([a[0]], one)
    if len(a) == 2:
        x, y = tonum(a[0]), tonum(a[1])
        if c.endswith("I"):
            for v in (x, y):
                for l in leafset(v):
                    if l.op == "num" and not is_int(l):
                        I.problem("%s needs integers" % c)
        return point(I, c, x, y)
    I.problem("%s() takes at most 2 coordinates" % c)
    return I.unknown(c)


EXT["lsst.geom.Box2I"] = lambda I, a, kw, n: mk_box2i(I, [restrict(x, I.G) for x in a], kw)
EXT["lsst.geom.Box2D"] = lambda I, a, kw, n: mk_box2d(I, [restrict(x, I.G) for x in a], kw)
EXT["lsst.geom.SpherePoint"] = lambda I, a, kw, n: sphere_point(I, a, kw)


@ext("lsst.geom.Angle")
def _angle(I, a, kw, node):
    v = kwarg(a, kw, 0, "val", ZERO)
    u = kwarg(a, kw, 1, "units", mk("unit", ONE))
    if u.op != "unit":
        I.problem("Angle() units are not an AngleUnit")
        return I.unknown("angle unit")
    return lift(lambda x: x if x.op == "ang" else mk("ang", mul(x, u.args[0])) if x.op == "num" else x, tonum(v))


@ext("lsst.afw.geom.makeCdMatrix")
def _cd(I, a, kw, node):
    s = kwarg(a, kw, 0, "scale")
    o = kwarg(a, kw, 1, "orientation", mk("ang", ZERO))
    f = kwarg(a, kw, 2, "flipX", FALSE)
    return X("cd", "makeCdMatrix", s, o, f)


@ext("lsst.afw.geom.makeSkyWcs")
def _wcs(I, a, kw, node):
    p = kwarg(a, kw, 0, "crpix")
    v = kwarg(a, kw, 1, "crval")
    c = kwarg(a, kw, 2, "cdMatrix")
    j = kwarg(a, kw, 3, "projection", const("TAN"))
    x, y = xy(I, p)
    w = X("SkyWcs", "makeSkyWcs", v, c, j)
    return shift_wcs(w, x, y)


def shift_wcs(w, dx, dy):
    """A WCS with pixel origin moved by (dx, dy), crpix being a shift too."""
    def one(u, x, y):
        if u.op == "x" and u.args[1] == "shift":
            x, y, u = add(x, u.args[3]), add(y, u.args[4]), u.args[2]
        if num_const(x) == 0 and num_const(y) == 0:
            return u
        return mk("x", "SkyWcs", "shift", u, x, y)
    return lift(one, w, dx, dy)


@ext("lsst.sphgeom.ConvexPolygon", "lsst.sphgeom.ConvexPolygon.convexHull", "lsst.sphgeom.ConvexPolygon.__init__")
def _poly(I, a, kw, node):
    nm = "convexHull" if ast_name(node) == "convexHull" else "ConvexPolygon"
    st = to_seq(I, a[0])
    return X("ConvexPolygon", nm, st if st is not None else I.freeze(a[0]))


@ext("lsst.sphgeom.Box")
def _sphbox(I, a, kw, node):
    pts = list(a) + [kw[k] for k in ("point1", "point2") if k in kw]
    return X("sphBox", "Box", *[I.freeze(p) for p in pts])


@ext("lsst.sphgeom.LonLat")
def _lonlat(I, a, kw, node):
    v = list(a) + [kw[k] for k in ("lon", "lat") if k in kw]
    return X("LonLat", "LonLat", *[ang(rad(sphang(p))) for p in v])


def sphang(p):
    return lift(lambda u: u.args[2] if u.op == "x" and u.args[0] in ("NormalizedAngle", "sphAngle") else u, p)


@ext("lsst.sphgeom.LonLat.fromRadians")
def _lonlatr(I, a, kw, node):
    return X("LonLat", "LonLat", ang(rad(a[0])), ang(rad(a[1])))


@ext("lsst.sphgeom.NormalizedAngle", "lsst.sphgeom.NormalizedAngle.fromRadians")
def _nangle(I, a, kw, node):
    # wraps into [0, 2 pi)
    return X("NormalizedAngle", "NormalizedAngle", ang(norm_lon(rad(a[0]))))


@ext("lsst.sphgeom.NormalizedAngle.fromDegrees")
def _nangled(I, a, kw, node):
    return X("NormalizedAngle", "NormalizedAngle", ang(norm_lon(lift_num(lambda u: mul(u, DEG), a[0]))))


@ext("lsst.sphgeom.Angle", "lsst.sphgeom.Angle.fromRadians")
def _sangle(I, a, kw, node):
    return X("sphAngle", "Angle", ang(rad(a[0])))


@ext("lsst.sphgeom.Vector3d", "lsst.sphgeom.UnitVector3d")
def _vec3(I, a, kw, node):
    if any(x.op == "star" for x in a):
        return X("Vector3d", "Vector3d", *[x.args[0] if x.op == "star" else I.freeze(x) for x in a])
    if len(a) == 3 and all(x.op == "x" and x.args[1] == "item" for x in a) and len({x.args[2] for x in a}) == 1:
        # three components of one vector, in order
        if [num_const(x.args[3]) for x in a] == [0, 1, 2]:
            return X("Vector3d", "Vector3d", mk("symseq", a[0].args[2], "any", atom(mk("len", a[0].args[2]))))
    return X("Vector3d", "Vector3d", *[I.freeze(x) for x in a])


# ------------------------------------------------------------------ hpgeom
# Pixels are described by longitude and latitude in radians; the angle
# conventions of the calls are converted to that.
def hp_args(I, name, params, defaults, a, kw):
    out = {}
    for i, p in enumerate(params):
        v = kwarg(a, kw, i, p, defaults.get(p))
        if v is None:
            I.problem("hpgeom.%s() missing argument %r" % (name, p))
            return None
        out[p] = v
    for k in kw:
        if k not in params:
            I.problem("hpgeom.%s() has no argument %r" % (name, k))
            return None
    return out


def hp_out(I, d, lon, lat):
    """The two angles in the requested convention."""
    ll, dg = I.truth(d["lonlat"]), I.truth(d["degrees"])
    f = div(num(180), PI)
    up = lambda v: lift_num(lambda x: mul(x, f), v)
    one = ite(ll, ite(dg, up(lon), lon), lift_num(lambda x: sub(div(PI, num(2)), x), lat))
    two = ite(ll, ite(dg, up(lat), lat), lon)
    return one, two


def hp_in(I, d, a, b):
    ll, dg = I.truth(d["lonlat"]), I.truth(d["degrees"])
    f = div(PI, num(180))
    L = lambda g, v: lift_num(g, v)
    lon = ite(ll, ite(dg, L(lambda x: mul(x, f), a), a), b)
    lat = ite(ll, ite(dg, L(lambda x: mul(x, f), b), b), L(lambda x: sub(div(PI, num(2)), x), a))
    return lon, lat


def hp_flag(I, d):
    return ite(I.truth(d["nest"]), const("nest"), const("ring"))


@ext("hpgeom.boundaries")
def _hpb(I, a, kw, node):
    d = hp_args(I, "boundaries", ["nside", "pix", "step", "nest", "lonlat", "degrees"],
                {"step": ONE, "nest": TRUE, "lonlat": TRUE, "degrees": TRUE}, a, kw)
    if d is None or not I.numish(d["pix"]):
        return I.unknown("hpgeom.boundaries")
    k = num_const(d["step"])
    if k is None or k > 8:
        return I.unknown("hpgeom.boundaries step")
    o1, o2 = [], []
    for i in range(4 * int(k)):
        x = [d["nside"], d["pix"], hp_flag(I, d), num(k), num(i)]
        p, q = hp_out(I, d, A("hpgeom.vertexLon", "real", *x), A("hpgeom.vertexLat", "real", *x))
        o1.append(seg(p))
        o2.append(seg(q))
    return tup(table(I, seq(*o1)), table(I, seq(*o2)))


@ext("hpgeom.pixel_to_angle")
def _hppa(I, a, kw, node):
    d = hp_args(I, "pixel_to_angle", ["nside", "pix", "nest", "lonlat", "degrees"],
                {"nest": TRUE, "lonlat": TRUE, "degrees": TRUE}, a, kw)
    if d is None or not I.numish(d["pix"]):
        return I.unknown("hpgeom.pixel_to_angle")
    x = [d["nside"], d["pix"], hp_flag(I, d)]
    return tup(*hp_out(I, d, A("hpgeom.lon", "real", *x), A("hpgeom.lat", "real", *x)))


@ext("hpgeom.angle_to_pixel")
def _hpap(I, a, kw, node):
    d = hp_args(I, "angle_to_pixel", ["nside", "a", "b", "nest", "lonlat", "degrees"],
                {"nest": TRUE, "lonlat": TRUE, "degrees": TRUE}, a, kw)
    if d is None:
        return I.unknown("hpgeom.angle_to_pixel")
    n, fl = d["nside"], hp_flag(I, d)
    if is_arr(I, d["a"]) or is_arr(I, d["b"]):
        def el(u, v):
            lon, lat = hp_in(I, d, u, v)
            return A("hpgeom.pixel", "int", n, lon, lat, fl)
        return vec_map(I, el, d["a"], d["b"])
    if not I.numish(d["a"]) or not I.numish(d["b"]):
        return I.unknown("hpgeom.angle_to_pixel")
    lon, lat = hp_in(I, d, d["a"], d["b"])
    return A("hpgeom.pixel", "int", n, lon, lat, fl)


@ext("stub.findTract")
def _stubfind(I, a, kw, node):
    c = a[0] if a else kw.get("coord", NONE)
    return X("stub", "tract", I.freeze(c))


@ext("stub.lookup")
def _stublookup(I, a, kw, node):
    return A("stub.lookup", "int", I.freeze(a[0]))


@ext("stub.tract")
def _stubtract(I, a, kw, node):
    return lift(lambda u: X("stub", "tract", u), a[0])


@ext("stub.around")
def _stubaround(I, a, kw, node):
    s = mk("x", "seq", "stub.around", I.freeze(a[0]))
    return mk("symseq", s, "int", atom(mk("len", s)))


@ext("stub.columns", "stub.rows")
def _stubcount(I, a, kw, node):
    """An arbitrary number that is not negative."""
    return atom(mk("len", mk("x", "seq", "stub.count", const(node.func.attr), I.freeze(a[0]))))


@ext("stub.wcs", "stub.outer", "stub.inner", "stub.region")
def _stubvalue(I, a, kw, node):
    t = mk("tup", "", *[I.freeze(x) for x in a])
    return lift(lambda u: X("SkyWcs" if node.func.attr == "wcs" else None, "stub." + node.func.attr, u), t)


@ext("hpgeom.nside_to_npixel")
def _npix(I, a, kw, node):
    return lift_num(lambda n: mul(num(12), power(n, 2)), a[0])


@ext("hpgeom.order_to_nside")
def _order(I, a, kw, node):
    return lift_num(lambda n: atom(mk("app", "pow2", "int", n)), a[0])


# ------------------------------------------------------------------ struct, hashlib
SIZES = {"b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8,
         "e": 2}


@ext("struct.pack")
def _pack(I, a, kw, node):
    f = restrict(a[0], I.G)
    vals = []
    for x in a[1:]:
        vals.append(x)
    tmpl = None
    if is_const(f) and isinstance(cval(f), (str, bytes)):
        s = cval(f) if isinstance(cval(f), str) else cval(f).decode()
        pieces = parse_fmt(s)
        if pieces is None:
            return mk("bytes", mk("packed", f, *[I.freeze(v) for v in vals]))
        order, items = pieces
        if any(v.op == "star" for v in vals):
            return mk("bytes", I.unknown("struct.pack with *args"))
        out, k = [], 0
        for c, n in items:
            if c == "x":
                out.append(mk("pk", order, "x%d" % n))
                continue
            if c in ("s", "p"):
                if k >= len(vals):
                    break
                out.append(mk("pk", order, "%d%s" % (n, c), I.freeze(vals[k])))
                k += 1
                continue
            for _ in range(n):
                if k >= len(vals):
                    k += 1
                    break
                v = tonum(vals[k]) if c != "?" else I.truth(vals[k])
                out.append(mk("pk", order, c, I.freeze(v)))
                k += 1
        if k != len(vals):
            I.problem("struct.pack(%r) called with %d values" % (s, len(vals)))
        # native alignment pads between items
        if order in ("@",) and len(items) > 1:
            return mk("bytes", mk("packed", f, *[I.freeze(v) for v in vals]))
        return mk("bytes", *out)
    # '<%dd' with a symbolic count
    if f.op == "x" and f.args[1] == "join":
        ps = list(f.args[2:])
        if len(ps) == 3 and is_const(ps[0]) and is_const(ps[2]) and ps[1].op == "x" and ps[1].args[1] == "fmt" and \
                cval(ps[0]) in ("<", ">", "=", "!", "") and len(cval(ps[2])) == 1 and len(vals) == 1 and \
                vals[0].op == "star":
            n = ps[1].args[2]
            order = cval(ps[0]) or "@"
            st = vals[0].args[0]
            if st.op != "unk":
                ln = I.seq_len(st)
                if ln is not n:
                    bad = lift(lambda p, q: not_(eq0(sub(p, q))), ln, n) if n.op == "num" else batom(
                        "unknown", unk("count"))
                    I.raise_if(bad, "struct.error")
                return mk("bytes", mk("pks", {"=": "<"}.get(order, order), cval(ps[2]), st))
    return mk("bytes", I.unknown("struct.pack format"))


def parse_fmt(s):
    order = "@"
    if s and s[0] in "@=<>!":
        order, s = s[0], s[1:]
    order = {"=": "<", "!": ">"}.get(order, order)      # '=' is little-endian on the supported platforms
    items, i = [], 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        j = i
        while j < len(s) and s[j].isdigit():
            j += 1
        if j >= len(s):
            return None
        n = int(s[i:j]) if j > i else 1
        c = s[j]
        if c not in "xcbB?hHiIlLqQnNefdspP":
            return None
        if order == "<" and c in "lL":
            c = {"l": "i", "L": "I"}[c]
        items.append((c, n))
        i = j + 1
    if order == "@" and len(items) == 1 and items[0][0] not in "lL":
        order = "<"
    return order, items


@ext("struct.Struct")
def _Struct(I, a, kw, node):
    return mk("x", "Struct", "Struct", a[0])


@ext("hashlib.sha1", "hashlib.sha256", "hashlib.md5", "hashlib.new")
def _sha(I, a, kw, node):
    name = ast_name(node)
    args = list(a)
    if name == "new":
        name = cval(args.pop(0)) if is_const(args[0]) else "?"
    o = I.alloc("sha", alg=const(name), data=mk("bytes"))
    if args:
        sha_update(I, o, args[0])
    return o


def sha_update(I, o, v):
    v = restrict(v, I.G)
    old = I.obj(o).fields["data"]

    def one(d, b):
        if is_bytes(b):
            return mk("bytes", *(d.args + tuple(bytes_parts(b))))
        if b.op == "unk":
            return mk("bytes", *(d.args + (b,)))
        return mk("bytes", *(d.args + (mk("raw", I.freeze(b)),)))
    new = lift(one, old, v)
    I.writes.append((I.obj(o).id, "data", I.G, v, old, I.loc()))
    I.obj(o).fields["data"] = ite(I.relG(I.obj(o)), new, old)


# ------------------------------------------------------------------ pex_config
FIELD_ARGS = {
    "Field": ["doc", "dtype", "default", "check", "optional", "deprecated"],
    "ListField": ["doc", "dtype", "default", "optional", "listCheck", "itemCheck", "length", "minLength",
                  "maxLength", "deprecated"],
    "DictField": ["doc", "keytype", "itemtype", "default", "optional", "dictCheck", "itemCheck", "keyCheck",
                  "deprecated"],
    "ConfigurableField": ["doc", "target", "ConfigClass", "default", "check", "deprecated"],
    "ConfigField": ["doc", "dtype", "default", "check", "deprecated"],
    "ChoiceField": ["doc", "dtype", "allowed", "default", "optional", "deprecated"],
    "RangeField": ["doc", "dtype", "default", "optional", "min", "max", "inclusiveMin", "inclusiveMax",
                   "deprecated"],
    "RegistryField": ["doc", "registry", "default", "optional", "multi"],
}
for _k, _v in FIELD_ARGS.items():
    def _field(I, a, kw, node, k=_k, names=_v):
        d = dict(zip(names, a))
        for n, v in kw.items():
            if n not in names:
                I.problem("%s() got an unexpected keyword argument %r" % (k, n))
            d[n] = v
        if "doc" not in d:
            I.problem("%s() needs doc" % k)
        return mk("py", _interp().FieldVal(k, d, I.loc()))
    EXT["lsst.pex.config." + _k] = _field


@ext("lsst.pex.config.makeRegistry")
def _makereg(I, a, kw, node):
    for k in kw:
        if k not in ("doc", "configBaseType"):
            I.problem("makeRegistry() got an unexpected keyword argument %r" % k)
    return mk("py", _interp().RegistryVal(I.loc()))


@ext("lsst.pex.config.registerConfigurable", "lsst.pex.config.registerConfig")
def _regdeco(I, a, kw, node):
    return mk("regdeco", a[0], kwarg(a, kw, 1, "registry"), kwarg(a, kw, 2, "ConfigClass", NONE))


def py_attr(I, o, c, name):
    IV = _interp()
    if isinstance(c, IV.RegistryVal):
        if name not in ("register", "makeField", "items", "keys", "values", "get", "__getitem__"):
            I.problem("registry has no attribute %r" % name)
        return mk("bmx", o, name)
    if isinstance(c, IV.FieldVal):
        if name in c.kw:
            return c.kw[name]
        return I.unknown("field attribute " + name)
    return I.unknown("attribute " + name)


def registry_method(I, c, name, a, kw, node):
    IV = _interp()
    if name == "register":
        nm, tgt = kwarg(a, kw, 0, "name"), kwarg(a, kw, 1, "target")
        cc = kwarg(a, kw, 2, "ConfigClass", NONE)
        if nm is None or tgt is None or not is_const(nm):
            I.problem("bad register() call")
            return NONE
        if cval(nm) in c.items:
            I.problem("%r is registered twice" % cval(nm))
        if cc is NONE:
            if tgt.op == "py" and isinstance(tgt.args[0], IV.ClassVal):
                cc = I.getattr(tgt, "ConfigClass", node)
        c.items[cval(nm)] = (tgt, cc)
        return NONE
    if name == "makeField":
        d = dict(zip(["doc", "default", "optional", "multi"], a))
        d.update(kw)
        d["registry"] = py_(c)
        return mk("py", IV.FieldVal("RegistryField", d, I.loc()))
    if name in ("items", "keys", "values"):
        its = sorted(c.items.items())
        return seq(*[seg(tup(const(k), v[0]) if name == "items" else const(k) if name == "keys" else v[0])
                     for k, v in its])
    if name in ("get", "__getitem__") and is_const(a[0]) and cval(a[0]) in c.items:
        return c.items[cval(a[0])][0]
    return I.unknown("registry." + name)


def config_fields(I, c):
    """Field declarations of a config class, base first."""
    out = {}
    for k in reversed(c.mro()):
        if isinstance(k, _interp().ClassVal):
            for n, v in k.attrs.items():
                if isinstance(v, T) and v.op == "py" and isinstance(v.args[0], _interp().FieldVal):
                    out[n] = v.args[0]
    return out


def field_default(I, f):
    d = f.kw.get("default", NONE)
    if f.kind == "ListField" and d is not NONE:
        st = I.seqterm(d)
        return I.newlist(st) if st is not None else d
    if f.kind == "DictField" and d is not NONE:
        n = I.alloc("dict", d=seq())
        dict_update(I, n, d)
        return n
    if f.kind == "RegistryField":
        return make_regfield(I, f, d, None)
    return coerce_field(I, f, d)


def make_regfield(I, f, name, factory):
    reg = f.kw["registry"].args[0]
    fields = {"name": name, "reg": f.kw["registry"]}
    for k, (t, cc) in sorted(reg.items.items()):
        if cc.op == "py":
            fields["cfg:" + k] = make_default_config(I, cc.args[0], {}) if factory is None else factory(
                cc.args[0], k)
    return I.alloc("regfield", **fields)


def coerce_field(I, f, v):
    if f.kind == "ListField" and v.op in ("tup", "obj", "seq", "symseq"):
        st = I.seqterm(v)
        if st is not None:
            return I.newlist(st)
    if f.kind == "RegistryField" and is_const(v):
        return make_regfield(I, f, v, None)
    return v


def make_default_config(I, c, kw):
    o = I.alloc(c)
    for n, f in config_fields(I, c).items():
        I.obj(o).fields[n] = field_default(I, f)
    sd, _ = c.lookup("setDefaults")
    if sd is not None:
        I.call(mk("bm", o, sd), [], {}, I.node)
    for k, v in kw.items():
        if k == "**":
            continue
        if k not in I.obj(o).fields and c.lookup(k)[0] is None:
            I.problem("%s has no field %r" % (c.name, k))
        I.setattr(o, k, v, I.node)
    return o


VALIDATION = "lsst.pex.config.FieldValidationError"
EACH = """
def each(check, items):
    for x in items:
        if not check(x):
            raise ValueError(x)
"""


def config_validate(I, o):
    """Config.validate() of the library: every field by its declaration."""
    for n, f in config_fields(I, I.obj(o).cls).items():
        v = I.getf(o, n)
        if v is None:
            continue

        def refuse(c):
            I.raise_if(c, VALIDATION)

        def check(name, *args):
            ch = f.kw.get(name, NONE)
            if ch is not NONE:
                refuse(not_(I.truth(I.call(ch, list(args), {}, I.node))))

        if v is NONE:
            if f.kw.get("optional", FALSE) is not TRUE:
                refuse(TRUE)
            continue
        if f.kind == "RegistryField":
            nm = I.getf(v, "name")
            I.cases([nm], lambda u: I.call(I.getattr(regfield_item(I, v, u), "validate", I.node), [], {}, I.node))
        elif f.kind == "ListField":
            st = I.seqterm(v)
            if st is None:
                I.unknown("list of a configuration")
                continue
            ln = I.seq_len(st)
            for k, bad in (("length", lambda q: not_(eq0(sub(ln, q)))), ("minLength", lambda q: lt(ln, q)),
                           ("maxLength", lambda q: lt(q, ln))):
                q = f.kw.get(k, NONE)
                if q is not NONE:
                    refuse(bad(q))
            check("listCheck", v)
            if f.kw.get("itemCheck", NONE) is not NONE:
                if not hasattr(I, "each_env"):
                    I.each_env = I.spec(EACH, "each")
                I.call(I.each_env["each"], [f.kw["itemCheck"], v], {}, I.node)
        elif f.kind == "RangeField":
            for k, inc, strict in (("min", "inclusiveMin", True), ("max", "inclusiveMax", False)):
                q = f.kw.get(k, NONE)
                if q is NONE:
                    continue
                closed = f.kw.get(inc, TRUE if k == "min" else FALSE) is TRUE
                a, b = (v, q) if k == "min" else (q, v)
                refuse(lt(a, b) if closed else le(a, b))
        else:
            check("check", v)
    return NONE


def regfield_item(I, o, k):
    if is_const(k):
        v = I.getf(o, "cfg:%s" % cval(k))
        if v is not None:
            return v
        I.problem("no registered item %r" % cval(k))
    if k.op == "ite":
        return I.cases([k], lambda u: regfield_item(I, o, u))
    return I.unknown("registry item")


# ------------------------------------------------------------------ attributes
def obj_attr(I, o, cls, name):
    if cls in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
        if name in ("x", "y"):
            return I.getf(o, name)
        if name not in PTEXT and not name.startswith("__"):
            return I.fails("AttributeError", "%s has no attribute %r" % (cls, name))
        return mk("bmx", o, name)
    if cls in ("Box2I", "Box2D"):
        if name not in BOX2I and not name.startswith("__"):
            return I.fails("AttributeError", "%s has no attribute %r" % (cls, name))
        if name in ("minX", "minY", "maxX", "maxY", "beginX", "beginY", "endX", "endY", "width", "height",
                    "dimensions", "begin", "end", "area"):
            return box_method(I, o, "get" + name[0].upper() + name[1:], [], {}, None)
        if name in ("minimum", "maximum"):
            return box_method(I, o, "getMin" if name == "minimum" else "getMax", [], {}, None)
        return mk("bmx", o, name)
    if cls == "ndarray":
        if name == "size":
            return I.seq_len(I.seqterm(o)) if "seq" in I.obj(o).fields else masked_len(I, o)
        if name == "shape":
            return tup(obj_attr(I, o, cls, "size"))
        if name == "ndim":
            return ONE
        if name in ("T", "flat"):
            return o
        if name == "dtype":
            return X("any", "dtype", o)
        return mk("bmx", o, name)
    if cls == "regfield":
        if name == "name":
            return I.getf(o, "name")
        if name == "active":
            return regfield_item(I, o, I.getf(o, "name"))
        if name == "target":
            return I.getf(o, "reg").args[0].items[cval(I.getf(o, "name"))][0]
        if name not in ("apply", "names", "types", "keys", "values", "items", "validate", "freeze", "enforce"):
            I.problem("registry field has no attribute %r" % name)
        return mk("bmx", o, name)
    known = {"list": list, "dict": dict, "set": set}.get(cls)
    if known is not None and not hasattr(known, name):
        if not (cls == "list" and name in ("popleft", "appendleft", "list", "apply")):
            return I.fails("AttributeError", "%s has no attribute %r" % (cls, name))
    return mk("bmx", o, name)


def masked_len(I, o):
    e, n, m = as_vec(I, o)
    if m is TRUE:
        return n
    return I.seq_len(I.seqterm(o))


ANGLE = set("""asRadians asDegrees asHours asArcminutes asArcseconds asMilliarcseconds toUnitVector wrap wrapCtr
wrapNear separation asAngularUnits isNormal""".split())
SPH = set("""getLongitude getLatitude getRa getDec getVector getPosition separation bearingTo rotated offset
getTangentPlaneOffset atPole isFinite""".split())
WCS = set("""skyToPixel pixelToSky skyToPixelArray pixelToSkyArray getPixelScale getPixelOrigin getSkyOrigin
getCdMatrix getTransform getTanWcs getRelativeRotationToWcs copyAtShiftedPixelOrigin linearizePixelToSky
linearizeSkyToPixel isFits isFlipped getFitsMetadata getFrameDict pixelScale""".split())


def value_attr(I, o, name):
    if o.op == "unk":
        return o
    if o.op == "ang":
        if name not in ANGLE and not name.startswith("__"):
            return I.fails("AttributeError", "Angle has no attribute %r" % name)
        return mk("bmx", o, name)
    if o.op == "x":
        t = o.args[0]
        if t == "SpherePoint" and name not in SPH and not name.startswith("__"):
            return I.fails("AttributeError", "SpherePoint has no attribute %r" % name)
        if t == "SkyWcs" and name not in WCS:
            return I.fails("AttributeError", "SkyWcs has no attribute %r" % name)
        if t == "foreign":
            if name.startswith("__"):
                return mk("bmx", o, name)
            I.raise_if(TRUE, "AttributeError")
            return UNDEF
        r = x_attr(I, o, name)
        return r if r is not None else mk("bmx", o, name)
    if is_const(o):
        v = cval(o)
        if v is None or isinstance(v, bool):
            if name.startswith("__"):
                return mk("bmx", o, name)
            I.raise_if(TRUE, "AttributeError")
            if not I.excs or len(I.excs) < 2:
                pass
            return UNDEF
        if not hasattr(v, name):
            return I.fails("AttributeError", "%s has no attribute %r" % (type(v).__name__, name))
        return mk("bmx", o, name)
    if o.op == "tup":
        if not hasattr(tuple, name):
            return I.fails("AttributeError", "tuple has no attribute %r" % name)
        return mk("bmx", o, name)
    if o.op == "num":
        if name in ("real", "numerator"):
            return o
        if name == "imag":
            return ZERO
        if name in ("size",):
            return ONE
        if not hasattr(float, name) and not hasattr(int, name) and name not in ("item", "astype", "dtype",
                                                                                 "tolist", "any", "all"):
            I.raise_if(TRUE, "AttributeError")
            return UNDEF
        return mk("bmx", o, name)
    if o.op == "bmx" or o.op == "bm":
        if name in ("__name__", "__doc__"):
            return const(str(o.args[1]))
        return mk("bmx", o, name)
    if o.op == "objdict":
        return mk("bmx", o, name)
    if o.op in ("bytes", "seq", "symseq", "exc", "unit", "range", "zip", "enum", "mapped"):
        return mk("bmx", o, name)
    return I.unknown("attribute %s of %s" % (name, show(o)[:30]))


def x_attr(I, o, name):
    t, fn = o.args[0], o.args[1]
    if t == "finfo":
        return A("finfo." + name, "real", o)
    if t == "DataCoordinate":
        if name in ("universe", "records", "dimensions", "graph"):
            return X({"universe": "Universe", "records": "records", "dimensions": "DimensionGroup"}.get(name), name,
                     o)
    if t == "SkyMapRecord":
        return atom(mk("app", "record." + name, "int", o))
    if t == "DimensionGroup" and name in ("names", "universe", "required"):
        return X({"names": "names", "universe": "Universe"}.get(name), name, o)
    if t == "butler":
        return X("butler", "butler." + name, o)
    if t == "ndarray3" and name in ("shape", "size"):
        return X(None, name, o)
    if t == "any" and fn.startswith("opt:"):
        return X("any", fn + "." + name, *o.args[2:])
    return None


def x_getitem(I, o, k):
    t = o.args[0]
    if t == "DataCoordinate" and is_const(k):
        n = cval(k)
        if n in ("tract", "patch"):
            return atom(mk("app", "dataId." + n, "int", o))
        return X("str", "dataId." + str(n), o)
    if t == "records" and is_const(k):
        return X("SkyMapRecord", "record", o, k)
    if t == "SpherePoint" and I.numish(k):
        lo, la = lonlat(o)
        return ang(ite(lift(eq0, k), lo, la))
    if t in ("coords", "seq", "list") and I.numish(k):
        return x_elem(I, o, k)
    if t == "str":
        return X("str", "item", o, I.freeze(k))
    return None


def inst_ext_attr(I, o, c, name):
    eb = c.extbases()
    if not eb:
        return None
    if any(b.endswith("DimensionPacker") for b in eb):
        if name in ("fixed", "dimensions"):
            f = I.getf(o, "@" + name)
            return f if f is not None else I.unknown("DimensionPacker." + name)
        if name in ("pack", "unpack", "maxBits"):
            return mk("bmx", o, name)
        return None
    if c.isconfig():
        if name in ("freeze", "validate", "toDict", "update", "items", "save", "load", "names", "compare", "values",
                    "setDefaults", "keys", "formatHistory", "_fields", "_frozen", "__eq__", "__ne__", "copy"):
            return mk("bmx", o, name)
        return None
    return mk("bmx", o, name) if name.startswith("__") else None


def inst_ext_getitem(I, o, k):
    return None


def obj_len(I, v):
    if I.obj(v).cls in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
        return num(2)
    return None


def ext_init(I, o, eb, args, kw):
    if any(b.endswith("DimensionPacker") for b in eb):
        I.setf(o, "@fixed", kwarg(args, kw, 0, "fixed", unk("fixed")))
        I.setf(o, "@dimensions", kwarg(args, kw, 1, "dimensions", unk("dimensions")))
    return NONE


def call_extsuper(I, s, name, args, kw, node):
    if s.op != "obj":
        return I.unknown("super." + name)
    c = I.obj(s).cls
    I.event("super." + name, [s] + args, kw)
    if name == "__init__":
        ext_init(I, s, c.extbases(), args, kw)
        return NONE
    if name == "validate" and c.isconfig():
        return config_validate(I, s)
    if name in ("validate", "setDefaults", "freeze", "__init_subclass__"):
        return NONE
    if name == "__eq__":
        return ite(ident(I, s, args[0]), TRUE, NOTIMPL)
    if name == "__ne__":
        return ite(ident(I, s, args[0]), FALSE, NOTIMPL)
    if name in ("__reduce__", "__reduce_ex__", "__getstate__"):
        return mk("objdict", s)
    if name == "__setattr__":
        I.setf(s, cval(args[0]), args[1])
        return NONE
    if name == "__hash__":
        return A("hash", "int", s)
    if name == "pack":
        return I.unknown("super.pack")
    if not c.extbases():
        I.problem("super() of %s has no attribute %r" % (c.name, name))
    return I.unknown("super." + name)


def opaque_class(I, c):
    return False


def opaque_construct(I, c, o, args, kw, node):
    return I.unknown("opaque class")


# ------------------------------------------------------------------ methods
def call_method(I, o, name, args, kw, node):
    o = restrict(o, I.G)
    if o.op == "unk":
        return o
    if o.op == "obj":
        c = I.obj(o).cls
        if c in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
            return pt_method(I, o, name, args, kw)
        if c in ("Box2I", "Box2D"):
            if name == "include":
                return box_method(I, o, name, args, kw, node)
            return I.cases(list(args), lambda *a: box_method(I, o, name, list(a), kw, node))
        if c == "ndarray":
            return arr_method(I, o, name, args, kw, node)
        if c in ("list", "set"):
            return list_method(I, o, name, args, kw, node)
        if c == "dict":
            return dict_method(I, o, name, args, kw, node)
        if c == "sha":
            if name == "update":
                sha_update(I, o, args[0])
                return NONE
            if name in ("digest", "hexdigest"):
                return X("bytes" if name == "digest" else "str", name, I.getf(o, "alg"), I.getf(o, "data"))
            return I.unknown("sha." + name)
        if c == "regfield":
            if name == "apply":
                nm = I.getf(o, "name")
                return I.cases([nm], lambda u: I.call(I.getf(o, "reg").args[0].items[cval(u)][0],
                                                      [regfield_item(I, o, u)] + args, kw, node)
                               if is_const(u) else I.unknown("apply"))
            return I.unknown("regfield." + name)
        if isinstance(c, _interp().ClassVal):
            if c.isconfig():
                I.event("Config." + name, [o] + args, kw)
                if name == "validate":
                    return config_validate(I, o)
                if name == "freeze" or name == "setDefaults":
                    return NONE
                if name == "update":
                    for k, v in kw.items():
                        I.setattr(o, k, v, node)
                    return NONE
                return I.unknown("Config." + name)
            if any(b.endswith("DimensionPacker") for b in c.extbases()) and name == "pack":
                return I.call(I.getattr(o, "_pack", node), args, {}, node)
        return I.unknown("method %s" % name)
    if o.op == "py":
        if isinstance(o.args[0], _interp().RegistryVal):
            return registry_method(I, o.args[0], name, args, kw, node)
        return I.unknown("method " + name)
    if o.op == "ang":
        return ang_method(I, o, name, args, kw)
    if o.op == "num":
        if name in ("item", "conjugate", "__int__", "__float__", "__index__"):
            return o
        if name == "bit_length":
            return A("bit_length", "int", o)
        if name == "is_integer":
            return boolc(True) if is_int(o) else B("is_integer", o)
        if name == "astype":
            t = table(I, seq(seg(o)))
            return arr_method(I, cast(I, t, args[0]), "item", [], {}, node)
        return I.unknown("number." + name)
    if is_strish(o):
        return str_method(I, o, name, args, kw, node)
    if is_bytes(o) or o.op == "x" and o.args[0] == "bytes":
        if name == "hex":
            return X("str", "hex", o)
        if name == "join":
            st = to_seq(I, args[0])
            it = seq_items(st) if st is not None else None
            if it is not None and is_const(o) and cval(o) == b"" and all(is_bytes(p) for p in it):
                return mk("bytes", *[q for p in it for q in bytes_parts(p)])
            return mk("bytes", I.unknown("bytes.join"))
        return I.unknown("bytes." + name)
    if o.op in ("tup", "seq", "symseq"):
        if name == "_replace" and o.op == "tup":
            c = I.named_class(o.args[0])
            names = [n for n, _ in c.namedtuple]
            vs = list(o.args[1:])
            for k, v in kw.items():
                vs[names.index(k)] = v
            return mk("tup", o.args[0], *vs)
        if name == "_asdict" and o.op == "tup":
            c = I.named_class(o.args[0])
            d = I.alloc("dict", d=seq(*[seg(tup(const(n), v)) for (n, _), v in zip(c.namedtuple, o.args[1:])]))
            return d
        if name == "__eq__":
            return equal(I, o, args[0], node)
        if name in ("sort",):
            return I.unknown("sort")
        return I.unknown("tuple." + name)
    if o.op == "x":
        return x_method(I, o, name, args, kw, node)
    if o.op == "objdict":
        src = o.args[0]
        if name == "copy":
            d = I.alloc("dict", d=seq(*[seg(tup(const(k), restrict(v, I.G)))
                                        for k, v in sorted(I.obj(src).fields.items())]))
            return d
        if name == "update":
            it = dict_items_concrete(I, args[0]) if args else []
            if it is None:
                return I.unknown("__dict__.update")
            for k, v in list(it) + [(const(k), v) for k, v in kw.items()]:
                I.setf(src, cval(k), v)
            return NONE
        return I.unknown("__dict__." + name)
    if o.op == "exc":
        return X("any", "exc." + name)
    if o.op == "bmx" or o.op == "bm" or o.op == "ext":
        return I.unknown("method of function")
    return I.unknown("method %s of %s" % (name, show(o)[:30]))


def ang_method(I, o, name, args, kw):
    r = o.args[0]
    f = {"asRadians": ONE, "asDegrees": DEG, "asHours": UNITS["hours"], "asArcminutes": UNITS["arcminutes"],
         "asArcseconds": UNITS["arcseconds"], "asMilliarcseconds": UNITS["milliarcseconds"],
         "__float__": ONE}.get(name)
    if f is not None:
        return div(r, f)
    if name == "asAngularUnits":
        return div(r, args[0].args[0]) if args and args[0].op == "unit" else I.unknown("unit")
    if name == "wrap":
        return ang(mod_(r, TWOPI))
    if name == "wrapCtr":
        return ang(sub(mod_(add(r, PI), TWOPI), PI))
    if name == "separation":
        return ang(A("angsep", "real", o, args[0]))
    return I.unknown("Angle." + name)


def pt_method(I, o, name, args, kw):
    cls = I.obj(o).cls
    if name in ("getX", "getY"):
        return I.getf(o, name[-1].lower())
    if name in ("setX", "setY"):
        I.setf(o, name[-1].lower(), args[0])
        return NONE
    if name == "__getitem__":
        return getitem(I, o, args[0], None)
    if name in ("asPair", "asTuple"):
        return tup(I.getf(o, "x"), I.getf(o, "y"))
    if name == "shift":
        x, y = xy(I, args[0])
        a, b = xy(I, o)
        I.setf(o, "x", lift_num(add, a, x))
        I.setf(o, "y", lift_num(add, b, y))
        return NONE
    return I.unknown("%s.%s" % (cls, name))


def pair_arg(I, v):
    if I.numish(tonum(v)):
        return tonum(v), tonum(v)
    return xy(I, v)


def box_method(I, o, name, args, kw, node):
    cls = I.obj(o).cls
    if name == "contains":
        if len(args) == 2:
            args = [point(I, "Point2I" if cls == "Box2I" else "Point2D", args[0], args[1])]
        return I.cases([args[0]], lambda p: box_contains(I, o, p))
    if cls == "Box2I":
        bx, by, ex, ey, em = box_fields(I, o)
        one = lambda v, d: lift_num(lambda u: add(u, num(d)), v)
        w = ite(em, ZERO, lift_num(sub, ex, bx))
        h = ite(em, ZERO, lift_num(sub, ey, by))
        simple = {"getMinX": bx, "getMinY": by, "getBeginX": bx, "getBeginY": by, "getEndX": ex, "getEndY": ey,
                  "getWidth": w, "getHeight": h}
        if name in simple:
            return simple[name]
        if name in ("getMaxX", "getMaxY"):
            return one(ex if name[-1] == "X" else ey, -1)
        if name in ("getMin", "getBegin"):
            return point(I, "Point2I", bx, by)
        if name == "getMax":
            return point(I, "Point2I", one(ex, -1), one(ey, -1))
        if name == "getEnd":
            return point(I, "Point2I", ex, ey)
        if name == "getDimensions":
            return point(I, "Extent2I", w, h)
        if name == "getArea":
            return lift_num(mul, w, h)
        if name == "isEmpty":
            return em
        if name == "getCorners":
            x1, y1 = one(ex, -1), one(ey, -1)
            return I.newlist(seq(*[seg(point(I, "Point2I", *c)) for c in ((bx, by), (x1, by), (x1, y1), (bx, y1))]))
        if name == "getCenter":
            half = lambda a, b: lift_num(lambda u, v: div(sub(add(u, v), ONE), num(2)), a, b)
            return point(I, "Point2D", half(bx, ex), half(by, ey))
        if name in ("grow", "dilatedBy", "erodedBy"):
            gx, gy = pair_arg(I, args[0])
            if name == "erodedBy":
                gx, gy = lift_num(neg, gx), lift_num(neg, gy)
            n = [lift_num(sub, bx, gx), lift_num(sub, by, gy), lift_num(add, ex, gx), lift_num(add, ey, gy)]
            e2 = or_(em, lift(lambda a, b: le(b, a), n[0], n[2]), lift(lambda a, b: le(b, a), n[1], n[3]))
            return box_store(I, o, n, e2, name == "grow")
        if name in ("shift", "shiftedBy"):
            gx, gy = xy(I, args[0])
            n = [lift_num(add, bx, gx), lift_num(add, by, gy), lift_num(add, ex, gx), lift_num(add, ey, gy)]
            return box_store(I, o, n, em, name == "shift")
        if name in ("clip", "clippedTo"):
            cx, cy, dx, dy, em2 = box_fields(I, args[0])
            n = [lift_num(max_, bx, cx), lift_num(max_, by, cy), lift_num(min_, ex, dx), lift_num(min_, ey, dy)]
            e2 = or_(em, em2, lift(lambda a, b: le(b, a), n[0], n[2]), lift(lambda a, b: le(b, a), n[1], n[3]))
            return box_store(I, o, n, e2, name == "clip")
        if name in ("include", "expandedTo"):
            p = args[0]
            if p.op == "obj" and I.obj(p).cls == "Box2I":
                cx, cy, dx, dy, em2 = box_fields(I, p)
            elif p.op == "obj":
                cx, cy = xy(I, p)
                dx, dy, em2 = one(cx, 1), one(cy, 1), FALSE
            else:
                return I.unknown("include")
            n = [lift_num(min_, bx, cx), lift_num(min_, by, cy), lift_num(max_, ex, dx), lift_num(max_, ey, dy)]
            n = [ite(em, a, ite(em2, b, c)) for a, b, c in zip((cx, cy, dx, dy), (bx, by, ex, ey), n)]
            return box_store(I, o, n, and_(em, em2), name == "include")
        if name in ("overlaps", "intersects"):
            cx, cy, dx, dy, em2 = box_fields(I, args[0])
            L = lambda a, b: lift(lambda u, v: lt(u, v), a, b)
            return and_(not_(em), not_(em2), L(bx, dx), L(cx, ex), L(by, dy), L(cy, ey))
        if name == "isDisjointFrom":
            return not_(box_method(I, o, "overlaps", args, kw, node))
        if name == "__eq__":
            return equal(I, o, args[0], node)
        return I.unknown("Box2I." + name)
    # Box2D
    ob = I.obj(o)
    if name == "include" and "pts" in ob.fields and all(
            u.op == "obj" and I.obj(u).cls in ("Point2D", "Point2I") for u in leafset(restrict(args[0], I.G))):
        x, y = xy(I, args[0])
        old = ob.fields["pts"]
        p = seg(tup(x, y), I.relG(ob))
        I.writes.append((ob.id, "pts", I.G, p, old, I.loc()))
        ob.fields["pts"] = lift(lambda s: seq(*(s.args + (p,))), old)
        return NONE
    if name == "include" and "pts" in ob.fields and args[0].op != "unk":
        st = to_seq(I, args[0])
        if st is not None:
            old = ob.fields["pts"]
            ps = map_seq(I, st, lambda e: tup(*xy(I, e)))
            I.writes.append((ob.id, "pts", I.G, st, old, I.loc()))
            ob.fields["pts"] = lift(lambda s: seq(*(s.args + guarded_segs(ps, I.relG(ob)))), old)
            return NONE
    x0, y0, x1, y1, em = b2d(I, o)
    simple = {"getMinX": x0, "getMinY": y0, "getMaxX": x1, "getMaxY": y1}
    if name in simple:
        return simple[name]
    if name == "isEmpty":
        return em
    if name in ("getWidth", "getHeight"):
        return ite(em, ZERO, lift_num(sub, x1, x0) if name == "getWidth" else lift_num(sub, y1, y0))
    if name == "getMin":
        return point(I, "Point2D", x0, y0)
    if name == "getMax":
        return point(I, "Point2D", x1, y1)
    if name == "getDimensions":
        return point(I, "Extent2D", ite(em, ZERO, lift_num(sub, x1, x0)), ite(em, ZERO, lift_num(sub, y1, y0)))
    if name == "getCenter":
        half = lambda a, b: lift_num(lambda u, v: div(add(u, v), num(2)), a, b)
        return point(I, "Point2D", half(x0, x1), half(y0, y1))
    if name in ("getCenterX", "getCenterY"):
        half = lambda a, b: lift_num(lambda u, v: div(add(u, v), num(2)), a, b)
        return half(x0, x1) if name[-1] == "X" else half(y0, y1)
    if name == "getCorners":
        return I.newlist(seq(*[seg(point(I, "Point2D", *c)) for c in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]))
    if name in ("grow", "dilatedBy", "erodedBy", "shift", "shiftedBy"):
        gx, gy = pair_arg(I, args[0])
        if name == "erodedBy":
            gx, gy = lift_num(neg, gx), lift_num(neg, gy)
        sg = add if name.startswith("shift") else sub
        n = [lift_num(sg, x0, gx), lift_num(sg, y0, gy), lift_num(add, x1, gx), lift_num(add, y1, gy)]
        e2 = em if name.startswith("shift") else or_(
            em, lift(lambda a, b: le(b, a), n[0], n[2]), lift(lambda a, b: le(b, a), n[1], n[3]))
        return box_store(I, o, n, e2, name in ("grow", "shift"))
    if name == "include":
        return I.unknown("Box2D.include of " + show(args[0])[:30])
    return I.unknown("Box2D." + name)


def box_store(I, o, n, em, inplace):
    cls = I.obj(o).cls
    ks = ("bx", "by", "ex", "ey") if cls == "Box2I" else ("x0", "y0", "x1", "y1")
    if not inplace:
        return I.alloc(cls, **dict(zip(ks, n)), empty=em)
    if "pts" in I.obj(o).fields:
        if I.G is not TRUE:
            x = b2d(I, o)
            n = [ite(I.G, a, b) for a, b in zip(n, x)]
        I.writes.append((I.obj(o).id, "pts", I.G, n[0], I.obj(o).fields["pts"], I.loc()))
        del I.obj(o).fields["pts"]
        I.obj(o).fields.update(dict(zip(ks, n)))
        I.obj(o).fields["empty"] = em
        return NONE
    for k, v in zip(ks, n):
        I.setf(o, k, v)
    I.setf(o, "empty", em)
    return NONE


def list_method(I, o, name, args, kw, node):
    if name in ("append", "add"):
        if name == "add" and False:
            pass
        list_append(I, o, args[0])
        return NONE
    if name in ("extend", "update"):
        list_extend(I, o, args[0])
        return NONE
    st = restrict(I.obj(o).fields["seq"], I.G)
    if name == "copy":
        return I.newlist(st)
    if name == "sort":
        I.setf(o, "seq", lift(lambda s: sort_seq(I, s, kw, node), st))
        return NONE
    if name == "reverse":
        r = _reversed(I, [o], {}, node)
        I.setf(o, "seq", r)
        return NONE
    if name == "clear":
        I.setf(o, "seq", seq())
        return NONE
    if name == "pop":
        it = seq_items(st)
        k = num_const(args[0]) if args else -1
        if it is not None and k is not None and it:
            v = it.pop(int(k))
            I.setf(o, "seq", seq(*[seg(x) for x in it]))
            return v
        I.setf(o, "seq", I.unknown("pop"))
        return I.unknown("pop")
    if name == "insert":
        it = seq_items(st)
        k = num_const(args[0])
        if it is not None and k is not None:
            it.insert(int(k), args[1])
            I.setf(o, "seq", seq(*[seg(x) for x in it]))
            return NONE
        if k == 0 and st.op == "seq":
            I.setf(o, "seq", seq(seg(args[1]), *st.args))
            return NONE
        I.setf(o, "seq", I.unknown("insert"))
        return NONE
    if name == "index" and len(args) == 1 and args[0].op in ("num", "ang"):
        # of the smallest or largest
        u = rad(args[0]) if args[0].op == "ang" else args[0]
        for a in terms.all_atoms(u):
            if a.op == "app" and a.args[0] in ("minof", "maxof") and atom(a) is u and a.args[2] is st:
                k = argmin_index(I, st, neg if a.args[0] == "maxof" else lambda e: e)
                if k is not None:
                    return k
    if name in ("index", "count"):
        return I.unknown("list." + name)
    if I.obj(o).cls == "set":
        if len(args) == 1:
            other = args[0]
            if not (other.op == "obj" and I.obj(other).cls == "set"):
                st2 = to_seq(I, other)
                other = I.alloc("set", seq=st2) if st2 is not None else other
            if name in SETOPS:
                r = set_op(I, name, o, other)
                if r is not None:
                    return r
            a, b = set_items(I, o), set_items(I, other)
            if a is not None and b is not None:
                if name == "issubset":
                    return subset(I, a, b)
                if name == "issuperset":
                    return subset(I, b, a)
                if name == "isdisjoint":
                    r = FALSE
                    for g, u in a:
                        r = or_(r, and_(g, among(I, u, b)))
                    return not_(r)
        return X("set", "set." + name, I.freeze(o), *[I.freeze(a) for a in args])
    I.setf(o, "seq", I.unknown("list." + name))
    return I.unknown("list." + name)


def dict_method(I, o, name, args, kw, node):
    d = restrict(I.obj(o).fields["d"], I.G)
    if d.op != "seq":
        return I.unknown("dict." + name)
    if name == "get":
        has, val = dict_lookup(I, d, args[0])
        dflt = kwarg(args, kw, 1, "default", NONE)
        return ite(has, val, dflt) if has is not FALSE else dflt
    if name == "items":
        if len(d.args) == 1 and d.args[0].op == "splice":
            return d.args[0].args[1]
        return d
    if name == "keys":
        return dict_keys_seq(I, o)
    if name == "values":
        return map_seq(I, d, lambda p: pair(I, p)[1])
    if name == "copy":
        return I.alloc("dict", d=d)
    if name == "update":
        if args:
            dict_update(I, o, args[0])
        for k, v in kw.items():
            dict_set(I, o, const(k), v)
        return NONE
    if name == "setdefault":
        has, val = dict_lookup(I, d, args[0])
        G0 = I.G
        I.G = and_(G0, not_(has))
        if I.G is not FALSE:
            dict_set(I, o, args[0], args[1])
        I.G = G0
        return ite(has, val, args[1])
    if name == "clear":
        I.setf(o, "d", seq())
        return NONE
    if name == "pop":
        has, val = dict_lookup(I, d, args[0])
        if is_const(args[0]):
            keep = [s for s in d.args if not (s.op == "seg" and s.args[1].op == "tup" and s.args[1].args[1] is
                                              args[0])]
            if all(s.op == "seg" and is_const(s.args[1].args[1]) for s in d.args):
                if len(args) < 2:
                    I.raise_if(not_(has), "KeyError")
                I.setf(o, "d", seq(*keep))
                return ite(has, val, args[1]) if len(args) > 1 else restrict(val, I.G)
    I.setf(o, "d", I.unknown("dict." + name))
    return I.unknown("dict." + name)


def str_method(I, o, name, args, kw, node):
    if name == "format" and is_const(o):
        return str_format(I, cval(o), args, kw)
    if name == "encode":
        enc = kwarg(args, kw, 0, "encoding", const("utf-8"))
        if is_const(o):
            try:
                return const(cval(o).encode(cval(enc)))
            except (UnicodeError, LookupError, TypeError):
                I.raise_if(TRUE, "UnicodeError")
                return UNDEF
        return X("bytes", "encode", o)
    if name == "join":
        st = to_seq(I, args[0])
        it = seq_items(st) if st is not None else None
        if it is not None and all(is_const(x) for x in it) and is_const(o):
            return const(cval(o).join(cval(x) for x in it))
        return X("str", "strjoin", o, I.freeze(st) if st is not None else I.freeze(args[0]))
    if is_const(o) and all(is_const(a) for a in args) and name in ("lower", "upper", "strip", "startswith",
                                                                   "endswith", "replace", "lstrip", "rstrip",
                                                                   "isdigit", "split", "title"):
        r = getattr(cval(o), name)(*[cval(a) for a in args])
        if isinstance(r, list):
            return I.newlist(seq(*[seg(const(x)) for x in r]))
        return const(r)
    if name in ("startswith", "endswith", "isdigit", "isalpha", "isalnum"):
        return B("str." + name, o, *[I.freeze(a) for a in args])
    if name in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "ljust", "rjust", "title", "zfill"):
        return X("str", "str." + name, o, *[I.freeze(a) for a in args])
    return I.unknown("str." + name)


def x_method(I, o, name, args, kw, node):
    t = o.args[0]
    if t == "SpherePoint":
        return sph_method(I, o, name, args, kw, node)
    if t == "SkyWcs":
        return wcs_method(I, o, name, args, kw, node)
    if t == "mapping":
        if name == "get":
            h = B("haskey", o, args[0])
            return ite(h, mapval(o, args[0]), kwarg(args, kw, 1, "default", NONE))
        if name == "items":
            return mk("x", "items", "items", o)
        if name == "keys":
            return I.seqterm(o)
        if name == "values":
            return mk("x", "values", "values", o)
        if name == "copy":
            d = I.alloc("dict", d=seq())
            dict_update(I, d, o)
            return d
        return I.unknown("mapping." + name)
    if t == "Struct":
        if name == "pack":
            return _pack(I, [o.args[2]] + args, {}, node)
        return I.unknown("Struct." + name)
    if t == "ndarray3":
        if name == "copy":
            return mk("x", "ndarray3", "copy", o)
        return X(None, "ndarray." + name, o, *[I.freeze(a) for a in args])
    if t in ("Universe", "DataCoordinate", "DimensionGroup"):
        if name == "conform":
            st = to_seq(I, args[0])
            return X("DimensionGroup", "conform", o, norm_names(I, st))
        if name in ("subset", "expand"):
            return X("DataCoordinate", name, o, *[I.freeze(a) for a in args])
        return X(None, name, o, *[I.freeze(a) for a in args])
    if t == "stub":
        # the tract some unspecified lookup returns
        i = o.args[2]
        if name == "getId":
            return i if i.op == "num" else A("stub.id", "int", o)
        if name == "findPatchList":
            return mk("x", "seq", "stub.patches", o, I.freeze(args[0]))
        if name == "contains":
            return B("stub.contains", o, I.freeze(args[0]))
        return X("stub", "method." + name, o, *[I.freeze(a) for a in args])
    if t == "butler":
        return butler_call(I, o, name, args, kw)
    if t == "logger":
        I.event("log." + name, args, kw)
        return NONE
    if t in ("ConvexPolygon", "sphBox", "LonLat", "Vector3d", None, "NormalizedAngle", "sphAngle"):
        if t in ("NormalizedAngle", "sphAngle") and name in ("asRadians", "asDegrees"):
            return call_method(I, o.args[2], name, args, kw, node)
        if t == "LonLat" and name in ("getLon", "getLat"):
            return o.args[2 if name == "getLon" else 3]
        if name in ("argmax", "argmin") and not args and o.args[1] == "numpy.dot":
            return EXT["numpy." + name](I, [o], kw, node)
        return X(None, "method." + name, o, *[I.freeze(a) for a in args])
    if t == "foreign":
        if name == "__eq__":
            return NOTIMPL
        return I.unknown("foreign method")
    if t == "any" and o.args[1].startswith("opt:"):
        return X("any", o.args[1] + "." + name + "()", *o.args[2:], *[I.freeze(a) for a in args])
    if t == "bytes":
        return X("str", name, o)
    return I.unknown("%s.%s" % (t, name))


def norm_names(I, st):
    it = seq_items(st) if st is not None else None
    if it is not None and all(is_const(x) for x in it):
        return mk("set", *[const(s) for s in sorted({cval(x) for x in it})])
    if st is not None and st.op == "seq" and all(s.op == "seg" and is_const(s.args[1]) for s in st.args):
        # guarded names: one set per case
        r = mk("set")
        for s in st.args:
            r = lift(lambda u, g: mk("set", *sorted(set(u.args) | {s.args[1]}, key=cval)) if g is TRUE else u, r,
                     s.args[0])
        return r
    return st if st is not None else I.unknown("names")


def sph_method(I, o, name, args, kw, node):
    if name in ("getLongitude", "getRa"):
        return ang(lonlat(o)[0])
    if name in ("getLatitude", "getDec"):
        return ang(lonlat(o)[1])
    if name == "getVector":
        return X("Vector3d", "vector", o)
    if name == "getPosition":
        u = kwarg(args, kw, 0, "unit", mk("unit", ONE))
        lo, la = lonlat(o)
        if u.op != "unit":
            return I.unknown("getPosition")
        return point(I, "Point2D", lift_num(lambda p: div(p, u.args[0]), lo),
                     lift_num(lambda p: div(p, u.args[0]), la))
    if name == "separation":
        def one(p):
            a, b = sorted((o, p), key=lambda u: u.uid)
            return mk("ang", atom(mk("app", "separation", "real", a, b)))
        return lift(one, I.freeze(args[0]))
    if name == "offset":
        b, d = kwarg(args, kw, 0, "bearing"), kwarg(args, kw, 1, "amount")
        return X("SpherePoint", "offset", o, b, d)
    if name == "atPole":
        return B("atPole", o)
    if name == "isFinite":
        return TRUE
    return X(None, "SpherePoint." + name, o, *[I.freeze(a) for a in args])


def wcs_method(I, o, name, args, kw, node):
    if name == "skyToPixel":
        return I.cases([args[0]], lambda c: sky_to_pixel(I, o, c))
    if name == "pixelToSky":
        if len(args) == 2:
            return pix2sky(o, args[0], args[1])

        def one(p):
            if p.op == "obj" and I.obj(p).cls in ("Point2D", "Point2I"):
                return pix2sky(o, *xy(I, p))
            st = I.seqterm(p)
            if st is not None:
                return I.newlist(map_seq(I, st, lambda e: pix2sky(o, *xy(I, e))))
            return I.unknown("pixelToSky")
        return I.cases([args[0]], one)
    if name == "copyAtShiftedPixelOrigin":
        x, y = xy(I, args[0])
        return shift_wcs(o, x, y)
    if name in ("skyToPixelArray", "pixelToSkyArray"):
        return I.unknown("SkyWcs." + name)
    return X(None, "SkyWcs." + name, o, *[I.freeze(a) for a in args])


def pix2sky(w, x, y):
    def one(u, a, b):
        if a.op != "num" or b.op != "num":
            return unk("pixelToSky")
        while u.op == "x" and u.args[1] == "shift":
            a, b, u = sub(a, u.args[3]), sub(b, u.args[4]), u.args[2]
        return mk("x", "SpherePoint", "pix2sky", u, a, b)
    return lift(one, w, x, y)


def butler_call(I, o, name, args, kw):
    I.event(o.args[1] + "." + name if o.args[1] != "butler" else "butler." + name, args, kw)
    if name == "transaction":
        return X("butler", "transaction", o)
    if name == "syncDimensionData":
        I.raise_if(B("raises:ConflictingDefinitionError", const("sync")),
                   "lsst.daf.butler.registry.ConflictingDefinitionError")
        return B("inserted", o)
    return X("any", "opt:butler." + name)


@ext("lsst.daf.butler.DatasetType")
def _dst(I, a, kw, node):
    vals = {k: v for k, v in zip(["name", "dimensions", "storageClass"], a)}
    vals.update(kw)
    return X("DatasetType", "DatasetType", *[tup(const(k), I.freeze(vals[k])) for k in sorted(vals)])


@ext("lsst.daf.butler.DataCoordinate.standardize")
def _std(I, a, kw, node):
    return X("DataCoordinate", "standardize", I.freeze(a[0]),
             *[tup(const(k), I.freeze(kw[k])) for k in sorted(kw)])


@ext("deprecated.sphinx.deprecated", "deprecated.deprecated")
def _deprecated(I, a, kw, node):
    return mk("x", None, "decorator")


@ext("builtins.slice")
def _slice(I, a, kw, node):
    a = list(a)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return mk("slice", *a)


@ext("contextlib.suppress", "contextlib.nullcontext")
def _ctx(I, a, kw, node):
    return X("any", "context")


@ext("dataclasses.dataclass")
def _dataclass(I, a, kw, node):
    if a and a[0].op == "py":
        a[0].args[0].dataclass = True
        return a[0]
    return mk("deco", "dataclass")


@ext("logging.getLogger")
def _getlogger(I, a, kw, node):
    return X("logger", "logger")


@ext("builtins.bytes", "builtins.bytearray")
def _bytes(I, a, kw, node):
    if not a:
        return const(b"")
    if is_bytes(a[0]):
        return a[0]
    return mk("bytes", I.unknown("bytes()"))


@ext("abc.ABC")
def _abc(I, a, kw, node):
    return NONE


@ext("numbers.Number")
def _nn(I, a, kw, node):
    return NONE
