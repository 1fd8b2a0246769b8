"""Refuting a claimed equality of two abstract values.

Two values with one normal form are equal.  Two values with different normal
forms may still be equal (the normal form is not complete), so a difference
is reported only with an *assignment* of the inputs under which the two
normal forms denote different values.  The evaluation below is of terms (the
result of the static analysis), never of the program.  Library functions the
analysis leaves uninterpreted are given arbitrary but consistent values (equal
arguments, equal results), inside the bounds known for them.

All three answers are possible: a witness, none found, or undetermined (the
terms contain something the analysis did not understand).
"""
from fractions import Fraction
import hashlib
import itertools
import math
import time

import terms
from terms import T, TRUE, FALSE, NONE, leaves, and_, restrict, lift, mk, is_const


class Undet(Exception):
    """The value depends on something not understood."""


class Ambiguous(Exception):
    """Too close to a discontinuity to say."""


class Impossible(Exception):
    """No value within the known bounds."""


EPS = Fraction(1, 10 ** 9)
SMALL_INTS = [0, 1, 2, 3, 1, 2, 4, 5, 7, -1, 10]
RANGES = {"separation": (0, 3), "angsep": (0, 3), "dot": (-1, 1), "lon": (0, 6), "lat": (-1, 1), "hpgeom.lon": (0, 6),
          "hpgeom.lat": (-1, 1), "hpgeom.vertexLon": (0, 6), "hpgeom.vertexLat": (-1, 1)}
DISTINCT_STR = {"fmt", "join", "format", "percent", "str", "hex", "strjoin"}
TAINT = {"loopout", "loopret", "loopsig", "loopraise", "loopreturn", "carry", "carried", "unk", "unknown", "deep",
         "opt:result"}


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big")


_krs = {}       # representations of the compound values in use


def keyrepr(v):
    if isinstance(v, Fraction):
        if v.denominator > 10 ** 7:
            return "%.9g" % float(v)
        return str(v)
    if isinstance(v, (tuple, list)):
        e = _krs.get(id(v))
        if e is not None and e[0] is v:
            return e[1]
        s = ",".join([keyrepr(x) for x in v])
        s = "(" + s + ")" if isinstance(v, tuple) else "[" + s + "]"
        if len(s) > 400:
            s = s[:60] + "#" + hashlib.blake2b(s.encode(), digest_size=12).hexdigest()
        if len(_krs) > 200000:
            _krs.clear()
        _krs[id(v)] = (v, s)
        return s
    if isinstance(v, dict):
        return "{" + ",".join("%s:%s" % (keyrepr(k), keyrepr(x)) for k, x in v.items()) + "}"
    return repr(v)


class Valuation:
    def __init__(self, seed):
        self.seed = seed
        self.over = {}
        self.end = math.inf
        self.reset()

    def reset(self):
        self.memo = {}
        self.env = {}
        self.used = {}

    # ---------------------------------------------------------- primitives
    def free(self, key, kind, a=None, name=None):
        """Value of something unconstrained."""
        if key in self.over:
            v = self.over[key]
            self.used[key] = v
            return v
        lo = hi = None
        if a is not None:
            l, h = terms.FACTS.get(a) or (None, None)
            if l is not None:
                lo = self.num(l)
            if h is not None:
                hi = self.num(h)
        if name in RANGES:
            lo, hi = (Fraction(x) for x in RANGES[name])
        elif name in ("len", "count", "sqrt", "abs"):
            lo = Fraction(0)
        r = h01(self.seed, key)
        if kind == "int":
            if lo is not None and hi is not None:
                l, h = math.ceil(lo), math.floor(hi)
                if h < l:
                    raise Impossible()
                n = h - l + 1
                v = Fraction(l + (r % n if n < 8 or r % 3 else (0, n - 1)[r % 2]))
            elif lo is not None:
                v = math.ceil(lo) + Fraction([0, 1, 2, 3, 4, 1, 2, 6][r % 8])
            elif hi is not None:
                v = math.floor(hi) - Fraction([0, 1, 2, 3, 4, 1, 2, 6][r % 8])
            else:
                v = Fraction(SMALL_INTS[r % len(SMALL_INTS)])
        else:
            if lo is not None and hi is not None:
                if hi < lo:
                    raise Impossible()
                v = lo + (hi - lo) * Fraction(r % 33, 32)
            elif lo is not None:
                v = lo + Fraction(r % 40, 8)
                if lo == Fraction(1, 10 ** 9):
                    v = Fraction(1 + r % 20, 8)
            elif hi is not None:
                v = hi - Fraction(r % 40, 8)
            else:
                v = Fraction(r % 65 - 32, 8)
        self.used[key] = v
        return v

    def flag(self, key):
        if key in self.over:
            v = self.over[key]
        else:
            v = bool(h01(self.seed, key) & 1)
        self.used[key] = v
        return v

    # ---------------------------------------------------------- evaluation
    def ev(self, t):
        if not isinstance(t, T):
            return t
        dep = self.env and any(a in self.env for a in terms.all_atoms(t))
        if not dep:
            r = self.memo.get(t)
            if r is not None:
                return r
        r = self.ev2(t)
        if not dep:
            self.memo[t] = r
        return r

    def num(self, t):
        v = self.ev(t)
        if not isinstance(v, Fraction):
            raise Undet()
        return v

    def cond(self, t):
        v = self.ev(t)
        if not isinstance(v, bool):
            raise Undet()
        return v

    def ev2(self, t):
        op = t.op
        if op == "num":
            s = Fraction(0)
            for m, c in t.args[0]:
                p = c
                for a, e in m:
                    x = self.atom(a)
                    if e < 0 and x == 0:
                        raise Impossible()
                    p *= x ** e
                s += p
            return s
        if op == "const":
            return t.args[1] if isinstance(t.args[1], bool) else ("c",) + t.args
        if op == "ite":
            return self.ev(t.args[1] if self.batom(t.args[0]) else t.args[2])
        if op == "ang":
            return ("ang", self.num(t.args[0]))
        if op == "tup":
            return ("t", t.args[0], [self.ev(x) for x in t.args[1:]])
        if op == "rec":
            return ("r", t.args[0], {f.args[0]: self.ev(f.args[1]) for f in t.args[1:]})
        if op in ("seq", "symseq"):
            return ("s", self.seq(t))
        if op == "x":
            if t.args[1] in TAINT:
                raise Undet()
            return ("x", t.args[1], [self.ev(x) for x in t.args[2:]], t.args[0])
        if op in TAINT:
            raise Undet()
        if op in ("undef",):
            return ("undef",)
        if op in ("bytes", "pk", "pks", "set", "ext", "cycle", "unit", "slice", "range", "exc", "raw"):
            return ("op", op, [self.ev(x) for x in t.args])
        if op == "bound":
            return self.atom(t)
        if op in ("py", "mod", "bm"):
            return ("py", t.uid)
        raise Undet()

    def binding(self, a):
        if a in self.env:
            return self.env[a]
        # the same index under a count rewritten by substitution
        for b, v in self.env.items():
            if b.op == "bound" and a.op == "bound" and b.args[0] == a.args[0] and isinstance(a.args[0], int):
                if a.args[1] is None or b.args[1] is None or self.ev(a.args[1]) == self.ev(b.args[1]):
                    return v
        raise Undet()

    def atom(self, a):
        op = a.op
        if op == "sym":
            if a.args[0] == "pi":
                return Fraction(math.pi)
            return self.free(("sym", a.args[0]), a.args[1], a)
        if op == "bound":
            if isinstance(a.args[0], str) and a not in self.env:
                hi = self.num(a.args[1])
                if hi < 1:
                    raise Impossible()
                return self.free(("bound", a.args[0], keyrepr(hi)), "int") % hi
            return self.binding(a)
        if op == "floor":
            v = self.num(a.args[0])
            f = Fraction(math.floor(v))
            if v != f and (v - f < EPS or f + 1 - v < EPS):
                raise Ambiguous()
            return f
        if op == "relu":
            return max(self.num(a.args[0]), Fraction(0))
        if op == "inv":
            v = self.num(a.args[0])
            if v == 0:
                raise Impossible()
            return 1 / v
        if op == "elem":
            return self.elem(a)
        if op == "psum":
            v = self.seq(a.args[0], None)
            k = self.num(a.args[1])
            if k < 0 or k > len(v):
                raise Impossible()
            return sum((self.asnum(x) for x in v[:int(k)]), Fraction(0))
        if op == "sum":
            st = a.args[0]
            v = self.seq(terms.seq(st) if st.op == "comp" else st)
            return sum((self.asnum(x) for x in v), Fraction(0))
        if op == "count":
            return Fraction(len(self.seq(terms.seq(a.args[0]))))
        if op == "len":
            u = a.args[0]
            if u.op in ("seq", "symseq"):
                return Fraction(len(self.seq(u)))
            if u.op == "num":
                return self.num(u)
            if u.op == "comp":
                return Fraction(len(self.seq(terms.seq(u))))
            return self.free(("len", keyrepr(self.ev(u))), "int", a, "len")
        if op == "app":
            return self.app(a)
        if op in TAINT:
            raise Undet()
        if op == "hull" or op == "slack":
            raise Undet()
        raise Undet()

    def asnum(self, v):
        if isinstance(v, Fraction):
            return v
        if isinstance(v, bool):
            return Fraction(int(v))
        raise Undet()

    def app(self, a):
        f, kind = a.args[0], a.args[1]
        if f in ("firstidx", "argmin"):
            c = a.args[2]
            b = terms.comp_binder(c)
            n = self.num(c.args[1])
            best = None
            for k in range(int(n)):
                with self.bind(b, k):
                    if f == "firstidx":
                        r = [x for x in c.args[2:] if x.op == "seg"]
                        hit = self.cond(c.args[2]) and any(self.cond(s.args[0]) for s in r)
                        if hit:
                            return Fraction(k)
                    else:
                        v = self.flatkey(self.ev(c.args[3].args[1]))
                        if best is None or self.less(v, best[0]):
                            best = (v, k)
            if best is None:
                raise Impossible()
            return Fraction(best[1])
        if f in ("maxof", "minof"):
            v = [self.asnum(x) for x in self.seq(a.args[2])]
            if not v:
                raise Impossible()
            return (max if f == "maxof" else min)(v)
        if f in ("hullmin", "hullext"):
            v = [self.asnum(x) for x in self.seq(a.args[2])]
            if not v:
                raise Impossible()
            return min(v) if f == "hullmin" else max(v) - min(v)
        args = [self.ev(x) for x in a.args[2:]]
        nums = [x for x in args if isinstance(x, Fraction)]
        try:
            if f == "pow2":
                return Fraction(2) ** int(nums[0]) if nums[0].denominator == 1 and abs(nums[0]) < 64 else _imp()
            if f == "floatconst" and a.args[2:] and a.args[2].args[1] == "inf":
                return Fraction(10) ** 30
            if f == "pi" or f == "floatconst" and not args:
                return Fraction(math.pi)
            if len(nums) == len(args) == 1 and f in ("cos", "sin", "tan", "sqrt", "acos", "asin", "atan", "exp",
                                                     "log", "log2", "log10", "abs"):
                x = nums[0]
                if f == "abs":
                    return abs(x)
                if f == "cos" and x == 0:
                    return Fraction(1)
                return Fraction(getattr(math, f)(float(x)))
            if f == "atan2":
                return Fraction(math.atan2(float(nums[0]), float(nums[1])))
            if f in ("roundeven", "round") and len(args) == 1:
                return Fraction(round(nums[0]))
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Impossible()
        if f == "pi":
            return Fraction(math.pi)
        return self.free((f, keyrepr(args)), kind, a, f)

    def flatkey(self, v):
        return v[2] if isinstance(v, tuple) and v[0] == "t" else [v]

    def less(self, u, v):
        for x, y in zip(u, v):
            x = x[1] if isinstance(x, tuple) and x[0] == "ang" else x
            y = y[1] if isinstance(y, tuple) and y[0] == "ang" else y
            if not isinstance(x, (Fraction, bool)) or not isinstance(y, (Fraction, bool)):
                raise Undet()
            if x != y:
                if abs(x - y) < EPS:
                    raise Ambiguous()
                return x < y
        return False

    def elem(self, a):
        st, i = a.args[0], self.num(a.args[1])
        if i.denominator != 1:
            raise Impossible()
        v = self.seq(st, int(i) + 1)
        if i < 0 or i >= len(v):
            raise Impossible()
        return self.asnum(v[int(i)])

    def bind(self, b, k):
        return _Bind(self, b, Fraction(k))

    def seq(self, st, upto=None):
        """Python list of the elements of a sequence term."""
        if st.op == "x" or st.op == "ite":
            v = self.ev(st)
            if isinstance(v, tuple) and v[0] == "s":
                return v[1]
            raise Undet()
        if st.op == "symseq":
            return self.symseq(st, upto)
        if st.op == "tup":
            return [self.ev(x) for x in st.args[1:]]
        if st.op != "seq":
            raise Undet()
        out = []
        for g in st.args:
            if g.op == "seg":
                if self.cond(g.args[0]):
                    out.append(self.ev(g.args[1]))
            elif g.op == "comp":
                n = self.num(g.args[1])
                if n > 300:
                    raise Impossible()
                b = terms.comp_binder(g)
                for k in range(int(n)):
                    with self.bind(b, k):
                        if self.cond(g.args[2]):
                            out += self.seq(terms.seq(*g.args[3:]))
            elif g.op == "splice":
                if self.cond(g.args[0]):
                    u = g.args[1]
                    if u.op in ("seq", "symseq"):
                        out += self.seq(u)
                    elif u.op == "x" and u.args[1] == "dedup":
                        seen = []
                        for x in self.seq(u.args[2]):
                            if not any(keyrepr(x) == keyrepr(y) for y in seen):
                                seen.append(x)
                        out += seen
                    elif u.op == "x" and u.args[1] not in TAINT:
                        v = self.ev(u)
                        n = self.free(("len", keyrepr(v)), "int", None, "len")
                        out += [("x", "elem", [v, Fraction(k)]) for k in range(int(n))]
                    else:
                        raise Undet()
            elif g.op == "stored":
                base, idx, val, gg = g.args
                out = self.seq(base)
                i = self.num(idx)
                if self.cond(gg):
                    if not 0 <= i < len(out):
                        raise Impossible()
                    out = list(out)
                    out[int(i)] = self.ev(val)
            elif g.op == "storedall":
                base, b, val, gg = g.args
                out = list(self.seq(base))
                for k in range(int(self.num(b.args[1]))):
                    with self.bind(b, k):
                        if self.cond(gg):
                            if k >= len(out):
                                raise Impossible()
                            out[k] = self.ev(val)
            else:
                raise Undet()
        return out

    def symseq(self, st, upto):
        src, kind, n = st.args
        n = self.num(n)
        if n > 300 or n < 0:
            raise Impossible()
        n = int(n)
        if not isinstance(src, T):
            raise Undet()
        if src.op == "reversed":
            return list(reversed(self.seq(src.args[0])))
        if src.op == "prefix":
            lo, hi = self.num(src.args[1]), self.num(src.args[2])
            return self.seq(src.args[0])[int(lo):int(hi)]
        if src.op == "cumsum":
            return list(itertools.accumulate(self.asnum(x) for x in self.seq(src.args[0])))
        if src.op == "sorted":
            if src.args[1] is not NONE:
                raise Undet()
            return sorted(self.asnum(x) for x in self.seq(src.args[0]))
        if src.op != "x" or src.args[1] in TAINT:
            raise Undet()
        v = self.ev(src)
        if kind in ("int", "real"):
            return [self.free(("elem", keyrepr(v), k), kind) for k in range(n)]
        return [("x", "elem", [v, Fraction(k)]) for k in range(n)]

    def batom(self, a):
        op = a.op
        if op == "lt0":
            p = self.num(a.args[0])
            if p != 0 and abs(p) < EPS:
                raise Ambiguous()
            return p < 0
        if op == "same":
            u, v = self.ev(a.args[0]), self.ev(a.args[1])
            d = different(u, v)
            if d is False:
                return True
            ks = sorted((keyrepr(u), keyrepr(v)))
            return self.flag(("same", ks[0], ks[1])) if not _ground(u, v) else False
        if op == "batom":
            if a.args[0] in TAINT:
                raise Undet()
            if a.args[0] == "exists":
                c = a.args[1]
                if c.op == "comp":
                    return bool(self.seq(terms.seq(c)))
                if c.op in ("seq", "symseq"):
                    return bool(self.seq(c))
                raise Undet()
            if a.args[0] == "nonempty":
                v = self.ev(a.args[1])
                if isinstance(v, tuple) and v[0] == "s":
                    return bool(v[1])
            args = [self.ev(x) for x in a.args[1:]]
            return self.flag(("b", a.args[0], keyrepr(args)))
        raise Undet()


def _ground(u, v):
    """Both values are constants (so that they are really different)."""
    return isinstance(u, (bool, Fraction)) and isinstance(v, (bool, Fraction)) or \
        isinstance(u, tuple) and isinstance(v, tuple) and u[0] == v[0] == "c"


def _imp():
    raise Impossible()


class _Bind:
    def __init__(self, V, b, k):
        self.V, self.b, self.k = V, b, k

    def __enter__(self):
        self.old = self.V.env.get(self.b)
        self.V.env[self.b] = self.k
        # values that depend on the index are not kept (see ev)

    def __exit__(self, *a):
        if self.old is None:
            self.V.env.pop(self.b, None)
        else:
            self.V.env[self.b] = self.old


DISTINCT = {"ConvexPolygon", "sphBox", "LonLat", "Vector3d", "SkyWcs", "SpherePoint"}


def different(u, v):
    """True: certainly different values; False: the same; None: unsure."""
    if isinstance(u, Fraction) and isinstance(v, Fraction):
        d = abs(u - v)
        m = max(abs(u), abs(v), Fraction(1))
        if d == 0 or d < EPS * m:
            return False
        return True if d > m / 10 ** 6 else None
    if isinstance(u, bool) or isinstance(v, bool):
        if isinstance(u, bool) and isinstance(v, bool):
            return u != v
        return None if isinstance(u, Fraction) or isinstance(v, Fraction) else True
    if isinstance(u, Fraction) or isinstance(v, Fraction):
        w = v if isinstance(u, Fraction) else u
        return True if isinstance(w, tuple) and w[0] in ("c", "t", "s", "r", "undef", "ang") else None
    if isinstance(u, tuple) and isinstance(v, tuple):
        if u[0] != v[0]:
            if "x" in (u[0], v[0]):
                return None
            return True
        k = u[0]
        if k == "c":
            return u[1:] != v[1:]
        if k == "ang":
            return different(u[1], v[1])
        if k == "undef":
            return False
        if k == "t":
            if u[1] != v[1]:
                return True
            if u[1] == "#set":
                # a collection without order
                a, b = (sorted(w[2][0][1], key=keyrepr) if w[2][0][0] == "s" else None for w in (u, v))
                if a is None or b is None:
                    return None
                return _lists(a, b)
            return _lists(u[2], v[2])
        if k == "s":
            return _lists(u[1], v[1])
        if k == "r":
            if u[1] != v[1]:
                return True
            if set(u[2]) != set(v[2]):
                return None
            return _lists([u[2][x] for x in sorted(u[2])], [v[2][x] for x in sorted(v[2])])
        if k == "x":
            if {u[3:], v[3:]} == {("bytes",), ("str",)}:
                return True
            if str(u[1]).startswith("stub.") and str(v[1]).startswith("stub.") and (
                    u[1] != v[1] or len(u[2]) != len(v[2])):
                return True         # functions of our own, without any relation
            if u[3:] != v[3:] and {u[3], v[3]} <= DISTINCT:
                return True         # objects of unrelated types
            if u[1] != v[1]:
                return None
            if len(u[2]) != len(v[2]):
                return None
            return _lists(u[2], v[2])
        if k == "op":
            if u[1] != v[1]:
                return None if "raw" in (u[1], v[1]) else True
            return _lists(u[2], v[2])
        if k == "py":
            return u[1] != v[1]
    if u is None and v is None:
        return False
    if isinstance(u, (str, int, bytes)) and isinstance(v, (str, int, bytes)):
        return u != v
    return None


def _lists(a, b):
    if len(a) != len(b):
        return True
    rs = [different(x, y) for x, y in zip(a, b)]
    if any(r is True for r in rs):
        return True
    if any(r is None for r in rs):
        return None
    return False


# ------------------------------------------------------------------- search
def split(a, b, care=TRUE, depth=0):
    """Pairs (guard, a', b') of corresponding parts with different normal
    forms."""
    a, b = restrict(a, care), restrict(b, care)
    if a is b or care is FALSE:
        return
    if (a.op == "ite" or b.op == "ite") and depth > 6:
        # restricting to a case brings back conditions: take the cases as they are
        n = 0
        for g, u in leaves(a, care):
            for h, v in leaves(b, g):
                if u is not v and and_(g, h) is not FALSE:
                    n += 1
                    if n > 40:
                        return
                    yield and_(care, and_(g, h)), u, v
        return
    if a.op == "ite" or b.op == "ite":
        x = lift(lambda p, q: TRUE if p is q else mk("tup", "!pair", p, q), a, b)
        n = 0
        for g, l in leaves(x, care):
            if l is TRUE or g is FALSE:
                continue
            n += 1
            if n > 40:
                return
            yield from split(l.args[1], l.args[2], g, depth + 1)
        return
    if a.op == b.op and depth < 30:
        if a.op == "tup" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            for x, y in zip(a.args[1:], b.args[1:]):
                yield from split(x, y, care, depth + 1)
            return
        if a.op == "rec" and a.args[0] == b.args[0] and len(a.args) == len(b.args) and \
                all(x.args[0] == y.args[0] for x, y in zip(a.args[1:], b.args[1:])):
            for x, y in zip(a.args[1:], b.args[1:]):
                yield from split(x.args[1], y.args[1], care, depth + 1)
            return
        if a.op == "seq" and len(a.args) == len(b.args) and all(
                x.op == y.op == "seg" and x.args[0] is y.args[0] is TRUE for x, y in zip(a.args, b.args)):
            for x, y in zip(a.args, b.args):
                yield from split(x.args[1], y.args[1], care, depth + 1)
            return
        if a.op == "ang":
            yield care, a.args[0], b.args[0]
            return
        if a.op == "x" and a.args[1] == b.args[1] and len(a.args) == len(b.args) and a.args[1] in (
                "sph", "shift", "makeSkyWcs", "item"):
            for x, y in zip(a.args[2:], b.args[2:]):
                yield from split(x, y, care, depth + 1)
            return
    yield care, a, b


def literals(g):
    """One conjunction of literals implying g (first satisfiable path)."""
    for lits in paths(g, 6):
        yield lits


def paths(g, limit):
    out = []

    def go(u, acc):
        if len(out) >= limit:
            return
        if u is TRUE:
            out.append(list(acc))
            return
        if u.op != "ite":
            return
        for val, k in ((True, 1), (False, 2)):
            if u.args[k] is not FALSE:
                acc.append((u.args[0], val))
                go(u.args[k], acc)
                acc.pop()
    go(g, [])
    return out


def adjustable(V, a):
    """Keys of the free values an atom's truth depends on."""
    sub = Valuation(V.seed)
    sub.over = V.over
    try:
        sub.batom(a)
    except (Ambiguous, Impossible):
        pass
    return dict(sub.used)


def satisfy(V, lits, steps=24):
    """Adjust V so that the literals hold; True on success."""
    for step in range(steps):
        V.reset()
        bad = None
        for a, want in lits:
            try:
                ok = V.batom(a) == want
            except (Ambiguous, Impossible):
                ok = False
            if not ok:
                bad = (a, want)
                break
        if bad is None:
            return True
        a, want = bad
        if not repair(V, a, want, lits, step):
            return False
    return False


def score(V, lits):
    n = 0
    V.reset()
    for a, want in lits:
        try:
            n += V.batom(a) == want
        except (Ambiguous, Impossible):
            n -= 1
    return n


def repair(V, a, want, lits, step):
    used = adjustable(V, a)
    if not used:
        return False
    best = None
    keys = list(used)
    if len(keys) > 16:
        # the parameters first, then some of the values of library functions
        keys.sort(key=lambda k: (k[0] not in ("sym", "config", "len"), h01(V.seed, step, k)))
        keys = keys[:48]
    for key in keys:
        cur = used[key]
        if time.time() > V.end or best is not None and best[0] == len(lits):
            break
        if isinstance(cur, bool):
            cands = [not cur]
        else:
            cands = []
            if a.op == "lt0":
                p0 = value(V, key, cur, a)
                for d in (Fraction(1), Fraction(-1), Fraction(1, 8)):
                    p1 = value(V, key, cur + d, a)
                    if p0 is None or p1 is None or p0 == p1:
                        continue
                    slope = (p1 - p0) / d
                    x = cur - p0 / slope
                    if cur.denominator == 1:
                        cands += [Fraction(math.floor(x)), Fraction(math.ceil(x)), Fraction(math.floor(x)) - 1,
                                  Fraction(math.ceil(x)) + 1]
                    else:
                        cands += [x, x + Fraction(1, 8), x - Fraction(1, 8)]
                    break
            cands += [cur + 1, cur - 1, cur * 2 + 1, Fraction(0), -cur]
        for c in cands:
            old = V.over.get(key, "none")
            V.over[key] = c
            V.reset()
            try:
                ok = V.batom(a) == want and inrange(V, key, c)
            except (Ambiguous, Impossible):
                ok = False
            if ok:
                s = score(V, lits)
                if best is None or s > best[0]:
                    best = (s, key, c)
            if old == "none":
                del V.over[key]
            else:
                V.over[key] = old
    if best is None:
        return False
    V.over[best[1]] = best[2]
    return True


def inrange(V, key, c):
    """Whether a forced value respects the bounds recorded for it."""
    if isinstance(c, bool):
        return True
    nm = key[0]
    if nm in RANGES:
        return RANGES[nm][0] <= c <= RANGES[nm][1]
    if nm == "len":
        a = None
        if c < 0 or c.denominator != 1:
            return False
    if nm == "sym":
        a = terms.SYMS.get(key[1])
        if a is None:
            return True
        if a.args[1] == "int" and c.denominator != 1:
            return False
        l, h = terms.FACTS.get(a) or (None, None)
        if l is not None and c < V.num(l):
            return False
        if h is not None and c > V.num(h):
            return False
    return True


def facts_hold(V):
    for key, c in list(V.used.items()):
        if not inrange(V, key, c):
            return False
    return True


def value(V, key, c, a):
    old = V.over.get(key, "none")
    V.over[key] = c
    V.reset()
    try:
        return V.num(a.args[0])
    except (Ambiguous, Impossible, Undet):
        return None
    finally:
        if old == "none":
            del V.over[key]
        else:
            V.over[key] = old
        V.reset()


spent = [0]     # seconds spent in vain


def refute(a, b, care=TRUE, seed=1, tries=24, facts=(), limit=25):
    t0 = time.time()
    r = _refute(a, b, care, seed, tries, facts, limit)
    if r[0] != "witness":
        spent[0] += time.time() - t0
    return r


def _refute(a, b, care=TRUE, seed=1, tries=24, facts=(), limit=25):
    """(verdict, text): 'equal', 'witness', 'unknown' (none found) or
    'undetermined' (tainted)."""
    if restrict(a, care) is restrict(b, care):
        return "equal", ""
    undet = 0
    total = 0
    why = ""
    end = time.time() + min(limit, max(2, 200 - spent[0]))
    for n, (g, x, y) in enumerate(split(a, b, care)):
        if n > 60 or time.time() > end:
            break
        total += 1
        if g is FALSE:
            continue
        for lits in paths(g, 4):
            for k in range(tries):
                if time.time() > end:
                    break
                V = Valuation((seed, n, k))
                V.end = end
                try:
                    if not satisfy(V, lits):
                        continue
                    V.reset()
                    if care is not TRUE and not V.cond(care):
                        continue
                    if not all(V.cond(f) for f in facts):
                        continue
                    u, v = V.ev(x), V.ev(y)
                    if not facts_hold(V):
                        continue
                except (Ambiguous, Impossible):
                    continue
                except Undet:
                    undet += 1
                    why = "(%s / %s)" % (terms.show(x, 5)[:150], terms.show(y, 5)[:150])
                    break
                if different(u, v) is True:
                    return "witness", "with %s: %s, expected %s" % (describe(V), showv(u), showv(v))
    if undet:
        return "undetermined", why
    return "unknown", "no distinguishing assignment found"


def refute_true(c, care=TRUE, seed=1, tries=24, facts=()):
    return refute(c, TRUE, care, seed, tries, facts)


def describe(V):
    out = []
    for k, v in V.used.items():
        if k[0] == "sym":
            out.append("%s=%s" % (k[1], showv(v)))
        elif k[0] == "b":
            out.append("%s%s=%s" % (k[1], k[2][:40], v))
        else:
            out.append("%s=%s" % (str(k[0]) + str(k[1])[:40], showv(v)))
    return ", ".join(out[:8]) or "any input"


def showv(v):
    if isinstance(v, Fraction):
        return str(v) if v.denominator < 100 else "%.6g" % float(v)
    if isinstance(v, tuple):
        if v[0] == "c":
            return repr(v[2])
        if v[0] == "t":
            return "%s(%s)" % (v[1].lstrip("@"), ", ".join(showv(x) for x in v[2])[:160])
        if v[0] == "s":
            return "[" + ", ".join(showv(x) for x in v[1][:6])[:160] + (", ...]" if len(v[1]) > 6 else "]")
        if v[0] == "x":
            return "%s(%s)" % (v[1], ", ".join(showv(x) for x in v[2])[:120])
        if v[0] == "ang":
            return "%s rad" % showv(v[1])
        if v[0] == "r":
            return "%s{%s}" % (v[1], ", ".join("%s=%s" % (k, showv(x)) for k, x in sorted(v[2].items()))[:160])
    return str(v)
