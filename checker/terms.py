"""Hash-consed value terms and their normal forms.

A *value* is a term.  Guarded values are multi-terminal decision diagrams:
inner nodes are ('ite', atom, hi, lo) over canonical boolean atoms, leaves are
anything else.  Numeric leaves are Laurent polynomials with rational
coefficients over typed numeric atoms, so that rearranged arithmetic has one
normal form.  Two program fragments that compute the same function of their
inputs by different statements normally get the *same* term (value numbering).

Arithmetic is exact (real/integer); floating point rounding is out of scope.
"""
from fractions import Fraction
from functools import lru_cache
import math
import sys

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "args", "uid", "_flags", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, other):
        return self is other


_table = {}


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.uid = len(_table) + 1
        t._flags = None
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    assert not (isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)), v
    return mk("const", type(v).__name__, v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


def boolc(b):
    return TRUE if b else FALSE


def unk(reason):
    return mk("unk", reason)


# ---------------------------------------------------------------- numbers
def _mk_num(d):
    items = [(m, _frac(c)) for m, c in d.items() if c]
    if len(items) > 1:
        items.sort(key=_monokey)
    return mk("num", tuple(items))


_keys = {}
_fracs = {}


def _frac(c):
    """One object per value, so that comparing terms is quick."""
    k = (c.numerator, c.denominator)
    r = _fracs.get(k)
    if r is None:
        r = _fracs[k] = Fraction(c)
    return r


def _monokey(item):
    m = item[0]
    k = _keys.get(m)
    if k is None:
        k = _keys[m] = tuple([(a.uid, e) for a, e in m])
    return k


def num(v):
    """A numeric constant."""
    if isinstance(v, T):
        return v
    if isinstance(v, float):
        if v != v:
            return atom(mk("app", "floatconst", "real", const(repr(v))))
        if v in (float("inf"), float("-inf")):
            return infinity() if v > 0 else neg(infinity())
        v = Fraction(repr(v))
    return _mk_num({(): Fraction(v)})


_inf = []


def infinity():
    """Above every number."""
    if not _inf:
        _inf.append(mk("app", "floatconst", "real", const("inf")))
    return atom(_inf[0])


def infinite(p):
    """The sign of a sum with an infinite term, 0 if it has none."""
    s = {c > 0 for m, c in p.args[0] for a, e in m if a is _inf[0] and len(m) == 1 and e == 1}
    return 0 if len(s) != 1 else 1 if s.pop() else -1


def atom(a):
    """A numeric value consisting of one atom."""
    return _mk_num({((a, 1),): Fraction(1)})


def pd(t):
    """Polynomial dict of a numeric leaf."""
    return dict(t.args[0])


def is_num(t):
    return t.op == "num"


def num_const(t):
    """Fraction if `t` is a constant number, else None."""
    if t.op != "num":
        return None
    it = t.args[0]
    if not it:
        return Fraction(0)
    if len(it) == 1 and it[0][0] == ():
        return it[0][1]
    return None


ZERO = num(0)
ONE = num(1)

# kinds of numeric atoms: op -> function(atom) -> 'int'|'real'


def atom_kind(a):
    op = a.op
    if op == "sym":
        return a.args[1]
    if op == "app":
        return a.args[1]
    if op in ("floor", "bound", "len", "count"):
        return "int"
    if op == "inv":
        return "real"
    if op == "relu":
        return "int" if is_int(a.args[0]) else "real"
    if op == "elem":
        return a.args[2]
    if op == "psum":
        return a.args[2]
    if op == "loopout":
        return a.args[2]
    if op == "hull":
        return "real"
    if op == "slack":
        return a.args[1]
    if op == "carry":
        return a.args[2]
    if op in ("minof", "maxof"):
        return a.args[1]
    return "real"


def is_int(t):
    for m, c in t.args[0]:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or atom_kind(a) != "int":
                return False
    return True


SYMS = {}


def sym(name, kind="int"):
    SYMS[name] = mk("sym", name, kind)
    return atom(SYMS[name])


PI = sym("pi", "real")
PIATOM = PI.args[0][0][0][0][0]


def lead(t):
    """Leading (non-constant) monomial of a polynomial: highest total degree,
    then latest atom."""
    best = None
    for m, c in t.args[0]:
        if m == ():
            continue
        k = (sum(e for _, e in m), tuple((a.uid, e) for a, e in m))
        if best is None or k > best[0]:
            best = (k, m, c)
    return (best[1], best[2]) if best else (None, None)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid))


def _norm_mono(m, c, out):
    """Add c*m to dict out, applying the rewrite rules for inv atoms."""
    for a, e in m:
        if a.op == "inv":
            p = a.args[0]
            rest = tuple(x for x in m if x[0] is not a)
            if e < 0:
                q = ONE
                for _ in range(-e):
                    q = mul(q, p)
                for m2, c2 in mul(_mk_num({rest: c}), q).args[0]:
                    out[m2] = out.get(m2, 0) + c2
                return
            lm, lc = lead(p)
            d = dict(rest)
            if all(d.get(x, 0) >= k for x, k in lm) and lm:
                # lm * inv(p) -> (1 - (p - lc*lm)*inv(p)) / lc
                red = tuple((x, d[x] - dict(lm).get(x, 0)) for x in d if d[x] - dict(lm).get(x, 0))
                red = tuple(sorted(red, key=lambda x: x[0].uid))
                rem = pd(p)
                del rem[lm]
                rem = _mk_num(rem)
                inv1 = _mk_num({((a, e),): Fraction(1)})
                if e > 1:
                    invm = _mk_num({((a, e - 1),): Fraction(1)})
                else:
                    invm = ONE
                t = sub(invm, mul(rem, inv1))
                t = mul(_mk_num({red: c / lc}), t)
                for m2, c2 in t.args[0]:
                    out[m2] = out.get(m2, 0) + c2
                return
    out[m] = out.get(m, 0) + c


@lru_cache(maxsize=None)
def add(a, b):
    d = pd(a)
    for m, c in b.args[0]:
        d[m] = d.get(m, 0) + c
    return _mk_num(d)


@lru_cache(maxsize=None)
def neg(a):
    return _mk_num({m: -c for m, c in a.args[0]})


def sub(a, b):
    return add(a, neg(b))


@lru_cache(maxsize=None)
def mul(a, b):
    out = {}
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            _norm_mono(_mono_mul(m1, m2), c1 * c2, out)
    return _mk_num(out)


@lru_cache(maxsize=None)
def div(a, b):
    it = b.args[0]
    if not it:
        return unk("division by zero")
    if len(it) == 1:
        m, c = it[0]
        inv = _mk_num({tuple((x, -e) for x, e in m): 1 / c})
        # normalise (inv atoms with negative exponents)
        return mul(a, mul(ONE, _renorm(inv)))
    if not a.args[0]:
        return ZERO
    # exact multiple?
    lm, lc = lead(b)
    am, ac = lead(a)
    if am == lm and a is mul(b, num(ac / lc)):
        return num(ac / lc)
    nb = mul(b, num(1 / lc))
    return mul(mul(a, num(1 / lc)), atom(mk("inv", nb)))


def _renorm(t):
    out = {}
    for m, c in t.args[0]:
        _norm_mono(m, c, out)
    return _mk_num(out)


def power(a, n):
    r = ONE
    for _ in range(abs(n)):
        r = mul(r, a)
    return r if n >= 0 else div(ONE, r)


# ---------------------------------------------------------------- facts
FACTS = {}   # atom -> (lo or None, hi or None) numeric terms


def clear_caches():
    _prove_cache.clear()
    floor_.cache_clear()
    relu.cache_clear()
    _never_apart.cache_clear()
    _against.cache_clear()


def fact(t, lo=None, hi=None):
    """Record bounds of a single-atom value."""
    a = single_atom(t)
    FACTS[a] = (num(lo) if lo is not None else None, num(hi) if hi is not None else None)
    clear_caches()


def single_atom(t):
    assert t.op == "num" and len(t.args[0]) == 1, t
    (m, c), = t.args[0]
    assert c == 1 and len(m) == 1 and m[0][1] == 1, t
    return m[0][0]


FACTS[single_atom(PI)] = (num(Fraction(31415926535897932, 10**16)), num(Fraction(31415926535897933, 10**16)))

_prove_cache = {}


def elem_bounds(st):
    """Constant bounds of all elements of a sequence."""
    if st.op != "seq" or len(st.args) != 1 or st.args[0].op != "comp" or len(st.args[0].args) != 4 or \
            st.args[0].args[3].op != "seg":
        return [], []
    e = st.args[0].args[3].args[1]
    if e.op != "num" or len(e.args[0]) != 1:
        return [], []
    (m, c), = e.args[0]
    if len(m) != 1 or m[0][1] != 1:
        return [], []
    lo, hi = bounds(m[0][0])
    lo, hi = ([mul(u, num(c)) for u in v if num_const(u) is not None] for v in (lo, hi))
    return (lo, hi) if c > 0 else (hi, lo)


def bounds(a):
    """Lists of lower and upper bounds (numeric terms) of atom `a`."""
    lo, hi = [], []
    f = FACTS.get(a)
    if f:
        if f[0] is not None:
            lo.append(f[0])
        if f[1] is not None:
            hi.append(f[1])
    op = a.op
    if op == "slack":
        lo.append(ZERO)
    elif op == "bound":
        lo.append(ZERO)
        if a.args[1] is not None and a.args[1].op == "num":
            hi.append(sub(a.args[1], ONE))
    elif op in ("len", "count"):
        u = a.args[0]
        # the numeric routines of the dodecahedron return non-empty lists
        lo.append(ONE if op == "len" and u.op == "x" and u.args[1] == "opaque" else ZERO)
    elif op == "relu":
        lo.append(ZERO)
        lo.append(a.args[0])
    elif op == "floor":
        q = a.args[0]
        n, d = int_fraction(q)
        if n is not None:
            lo.append(div(add(sub(n, d), ONE), d))
        else:
            lo.append(sub(q, ONE))
        hi.append(q)
        if prove_ge0(q, 2):
            lo.insert(0, ZERO)
    elif op == "inv":
        if prove_gt0(a.args[0], 2):
            lo.append(ZERO)
    elif op == "app" and a.args[0] in ("firstidx", "argmin"):
        lo.append(ZERO)
        if a.args[2].args[1].op == "num":
            hi.append(sub(a.args[2].args[1], ONE))
    elif op == "app" and a.args[0] == "hpgeom.pixel":
        lo.append(ZERO)
        if a.args[2].op == "num":
            hi.append(sub(mul(num(12), power(a.args[2], 2)), ONE))
    elif op == "app" and a.args[0] in ("cos", "sin"):
        if a.args[0] == "cos" and a.args[2].op == "num" and all(
                prove_ge0(add(div(PI, num(2)), u), 4) for u in (a.args[2], neg(a.args[2]))):
            lo.append(ZERO)
        lo.append(num(-1))
        hi.append(ONE)
    elif op == "app" and a.args[0] == "dot":
        lo.append(num(-1))      # of unit vectors
        hi.append(ONE)
    elif op == "app" and a.args[0] in ("maxof", "minof") and len(a.args) == 3:
        l, h = elem_bounds(a.args[2])
        lo += l
        hi += h
    elif op == "app" and a.args[0] in ("abs", "sqrt"):
        lo.append(ZERO)
    elif op == "elem":
        st = a.args[0]
        if st.op == "seq" and len(st.args) == 1 and st.args[0].op == "comp" and len(st.args[0].args) == 4:
            g = st.args[0].args[3]
            if g.op == "seg" and g.args[1].op == "num":
                # whatever the index, as long as there is such an element
                for k in (ONE, ZERO):
                    if prove_ge0(sub(g.args[1], k), 3):
                        lo.append(k)
                        break
    return lo, hi


def atoms_of(p):
    s = []
    for m, _ in p.args[0]:
        for a, _e in m:
            if a not in s:
                s.append(a)
    return s


_slacks = {}


def _slack(a, which):
    k = (a, which)
    if k not in _slacks:
        _slacks[k] = atom(mk("slack", len(_slacks), "real"))
    return _slacks[k]


def _pos_atom(a):
    """Is the atom known to be strictly positive / nonnegative?"""
    if a.op == "slack":
        return 0
    lo, _ = bounds(a)
    best = None
    for l in lo:
        c = num_const(l)
        if c is not None:
            if c > 0:
                return 1
            if c == 0:
                best = 0
    if a.op == "inv" and best == 0:
        return 1
    if a.op == "app" and a.args[0] == "hullext":
        return 1
    return best


def _clear_neg(p):
    """Multiply by positive atoms with negative exponents; None if impossible."""
    for _ in range(6):
        negs = {}
        for m, _c in p.args[0]:
            for a, e in m:
                if e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if not negs:
            # clear inv atoms as well
            invs = {}
            for m, _c in p.args[0]:
                for a, e in m:
                    if a.op == "inv":
                        invs[a] = max(invs.get(a, 0), e)
            if not invs:
                return p
            for a, e in invs.items():
                if not prove_gt0(a.args[0], 2):
                    return None
                for _ in range(e):
                    p = mul(p, a.args[0])
            continue
        for a, e in negs.items():
            if _pos_atom(a) != 1:
                return None
            p = mul(p, _mk_num({((a, -e),): Fraction(1)}))
    return p


def prove_ge0(p, depth=5, below=None):
    key = (p, depth, False, below)
    if key in _prove_cache:
        return _prove_cache[key]
    if _inf and infinite(p):
        return infinite(p) > 0
    _prove_cache[key] = False
    r = _prove(p, depth, False, below)
    if not r and num_const(p) is None and is_int(p):
        r = _prove(add(p, ONE), depth, True, below)      # an integer is >= 0 iff it is > -1
    _prove_cache[key] = r
    return r


def prove_gt0(p, depth=5, below=None):
    if is_int(p):
        return prove_ge0(sub(p, ONE), depth, below)
    key = (p, depth, True, below)
    if key in _prove_cache:
        return _prove_cache[key]
    if _inf and infinite(p):
        return infinite(p) > 0
    _prove_cache[key] = False
    r = _prove(p, depth, True, below)
    _prove_cache[key] = r
    return r


def _trivial(p, strict):
    some = False
    for m, c in p.args[0]:
        if c < 0:
            return False
        pos = True
        for a, e in m:
            s = _pos_atom(a)
            if s is None:
                if e % 2:
                    return False
                pos = False
            elif s == 0:
                pos = False
        if pos:
            some = True
    return some or not strict


def _prove(p, depth, strict, below):
    """Eliminate atoms by their bounds, highest first."""
    c = num_const(p)
    if c is not None:
        return c > 0 if strict else c >= 0
    p = _clear_neg(p)
    if p is None:
        return False
    if _trivial(p, strict):
        return True
    if depth <= 0 or len(p.args[0]) > 24:
        return False
    ats = [((-_height(a), -a.uid), a) for a in atoms_of(p) if a.op != "slack"]
    ats.sort(key=lambda x: x[0])
    rec = prove_gt0 if strict else prove_ge0
    for k, a in ats:
        if below is not None and k <= below:
            continue
        deg = max(dict(m).get(a, 0) for m, _ in p.args[0])
        if deg > 3:
            continue
        up = down = False
        for m, co in p.args[0]:
            e = dict(m).get(a, 0)
            if e:
                s = co > 0
                plain = e == 1 and all(x is a or _pos_atom(x) is not None for x, _ in m)
                if not plain:
                    up = down = True
                elif s:
                    up = True
                else:
                    down = True
        if a.op == "relu" and deg == 1:
            # relu(u) is one of 0 and u
            if rec(subst_atom(p, a, ZERO), depth - 1, k) and rec(subst_atom(p, a, a.args[0]), depth - 1, k):
                return True
        lo, hi = bounds(a)
        if up:
            for b in lo:
                if a not in all_atoms(b) and rec(subst_atom(p, a, add(b, _slack(a, ("lo", b)))), depth - 1, k):
                    return True
        if down:
            for b in hi:
                if a not in all_atoms(b) and rec(subst_atom(p, a, sub(b, _slack(a, ("hi", b)))), depth - 1, k):
                    return True
    return False


@lru_cache(maxsize=None)
def _height(a):
    h = 0
    for x in a.args:
        if isinstance(x, T):
            h = max(h, 1 + _height(x))
        elif isinstance(x, tuple):
            for y in _flat(x):
                h = max(h, 1 + _height(y))
    return h


def _flat(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _flat(y)


@lru_cache(maxsize=None)
def all_atoms(t):
    """All subterms (transitively)."""
    s = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in s:
            continue
        s.add(u)
        for x in u.args:
            stack.extend(_flat(x))
    return frozenset(s)


def contains(t, op):
    return any(u.op == op for u in all_atoms(t))


def unknowns(t):
    return sorted({u.args[0] for u in all_atoms(t) if u.op == "unk"})


def subst_atom(p, a, q):
    """Replace top-level occurrences of atom `a` in polynomial by `q`."""
    d = {}
    out = None
    for m, c in p.args[0]:
        e = 0
        for x, n in m:
            if x is a:
                e = n
        if not e:
            d[m] = c
        else:
            rest = _mk_num({tuple([x for x in m if x[0] is not a]): c})
            r = mul(rest, power(q, e))
            out = r if out is None else add(out, r)
    return p if out is None else add(_mk_num(d), out)


# ---------------------------------------------------------------- floor etc
def int_fraction(q):
    """Write q = A/D with integer polynomial A and positive integer monomial D,
    or (None, None)."""
    den = 1
    exps = {}
    for m, c in q.args[0]:
        den = den * c.denominator // math.gcd(den, c.denominator)
        for a, e in m:
            if atom_kind(a) != "int":
                return None, None
            if e < 0:
                exps[a] = min(exps.get(a, 0), e)
    for a in exps:
        if _pos_atom(a) != 1:
            return None, None
    D = _mk_num({tuple(sorted(((a, -e) for a, e in exps.items()), key=lambda x: x[0].uid)): Fraction(den)})
    A = mul(q, D)
    if not is_int(A):
        return None, None
    return A, D


@lru_cache(maxsize=None)
def floor_(p):
    """Floor of a numeric leaf."""
    if p.op != "num":
        return unk("floor of non-number")
    ipart, rest = {}, {}
    for m, c in p.args[0]:
        if all(e > 0 and atom_kind(a) == "int" for a, e in m):
            f = c.numerator // c.denominator
            if f:
                ipart[m] = Fraction(f)
            if c - f:
                rest[m] = c - f
        else:
            rest[m] = c
    ip, r = _mk_num(ipart), _mk_num(rest)
    c = num_const(r)
    if c is not None:
        return ip          # 0 <= c < 1
    if len(r.args[0]) == 1:
        (m, c), = r.args[0]
        for a, e in m:
            # the longitude of a coordinate is in [0, 2 pi)
            if e == 1 and a.op == "app" and a.args[0] == "lon" and r is div(atom(a), mul(num(2), PI)):
                return ip
    if prove_ge0(r) and prove_gt0(sub(ONE, r)):
        return ip
    A, D = int_fraction(r)
    if A is not None:
        lm, lc = lead(A)
        if lc is None:
            lc = num_const(A)
        if lc < 0:
            inner = div(sub(neg(A), ONE), D)
            return sub(sub(ip, floor_(inner)), ONE)
        # pull whole multiples of D out of A's constant-coefficient part again
    else:
        # real argument of known sign structure: nothing to do
        pass
    return add(ip, atom(mk("floor", r)))


def ceil_(p):
    return neg(floor_(neg(p)))


def trunc_(p):
    """int(x): floor of non-negative, ceiling of negative numbers."""
    f = floor_(p)
    if p.op != "num" or f is p or prove_ge0(p):
        return f
    return ite(lt(p, ZERO), neg(floor_(neg(p))), f)


@lru_cache(maxsize=None)
def relu(p):
    c = num_const(p)
    if c is not None:
        return num(max(c, Fraction(0)))
    if prove_ge0(p):
        return p
    if prove_ge0(neg(p)):
        return ZERO
    lm, lc = lead(p)
    if lc < 0:
        return add(relu(neg(p)), p)
    q = mul(p, num(1 / lc)) if not is_int(p) or lc == 1 else p
    k = ONE if q is p else num(lc)
    return mul(k, atom(mk("relu", q)))


def max_(a, b):
    if b.uid < a.uid:
        a, b = b, a
    return add(a, relu(sub(b, a)))


def min_(a, b):
    return neg(max_(neg(a), neg(b)))


def abs_(p):
    return sub(mul(num(2), relu(p)), p)


def mod_(a, b):
    return sub(a, mul(b, floor_(div(a, b))))


# ---------------------------------------------------------------- diagrams
ORDER = {}


def _key(a):
    return a.uid


def top(*vs):
    best = None
    for v in vs:
        if v.op == "ite":
            a = v.args[0]
            if best is None or a.uid < best.uid:
                best = a
    return best


def cof(v, a, val):
    if v.op == "ite" and v.args[0] is a:
        return v.args[1] if val else v.args[2]
    return v


def related(a):
    """Linear part key of a comparison atom."""
    if a.op != "lt0":
        return None
    p = {m: c for m, c in a.args[0].args[0] if not _fixed_mono(m)}
    t = _mk_num(p)
    lm, lc = lead(t)
    if lc is None:
        return None
    return mul(t, num(1 / lc))


# pi to 40 digits; thresholds are compared with it (two of them are equal
# only if they are the same rational combination of powers of pi)
PIQ = Fraction(31415926535897932384626433832795028841972, 10**40)


def _fixed_mono(m):
    """The monomial is a power of pi (or 1)."""
    return not m or (len(m) == 1 and m[0][0] is PIATOM)


@lru_cache(maxsize=None)
def _rel(a):
    k = related(a)
    if k is None:
        return None
    p = a.args[0]
    d = pd(p)
    c0 = Fraction(0)
    for m in [m for m in d if _fixed_mono(m)]:
        c = d.pop(m)
        c0 += c * (PIQ ** m[0][1] if m else 1)
    lm, lc = lead(_mk_num(d))
    # lc*k + c0 < 0
    return k, lc, -c0 / lc


def _implied(a, val, b):
    """Truth value of atom b given atom a has value val (None if open)."""
    ra, rb = _rel(a), _rel(b)
    if ra is None or rb is None or ra[0] is not rb[0]:
        return None
    integer = is_int(ra[0])
    # a: k < ta (lc>0) or k > ta (lc<0)
    lo, hi = None, None    # (bound, strict)
    ka, ta = ra[1] > 0, ra[2]
    if ka == val:   # k < ta (strict) if ka and val ; not(k > ta) -> k <= ta
        hi = (ta, val)
    else:           # not (k<ta) -> k >= ta ; or k > ta strict
        lo = (ta, val)
    kb, tb = rb[1] > 0, rb[2]
    if hi is not None:
        h, st = hi
        if integer:
            # largest integer allowed
            h2 = (math.ceil(h) - 1) if st else math.floor(h)
            if kb:
                return True if h2 < tb else None
            return False if h2 <= tb else None
        if kb:      # k < tb?
            if h < tb or (h == tb and st):
                return True
            return None
        # k > tb?
        if h <= tb:
            return False
        return None
    l, st = lo
    if integer:
        l2 = (math.floor(l) + 1) if st else math.ceil(l)
        if kb:
            return False if l2 >= tb else None
        return True if l2 > tb else None
    if kb:
        if l >= tb:
            return False
        return None
    if l > tb or (l == tb and st):
        return True
    return None


@lru_cache(maxsize=None)
def _assume(v, a, val):
    """Simplify v knowing atom a has value val."""
    if v.op != "ite":
        return v
    b = v.args[0]
    if b is a:
        return _assume(v.args[1] if val else v.args[2], a, val)
    imp = _implied(a, val, b)
    if imp is not None:
        return _assume(v.args[1] if imp else v.args[2], a, val)
    hi, lo = _assume(v.args[1], a, val), _assume(v.args[2], a, val)
    if hi is v.args[1] and lo is v.args[2]:
        return v
    return node(b, hi, lo)


def node(a, hi, lo):
    if hi is lo:
        return hi
    if _rel(a) is not None:
        hi = _assume(hi, a, True)
        lo = _assume(lo, a, False)
        if hi is lo:
            return hi
    # merge tuples / records of the same shape
    if hi.op == lo.op == "tup" and hi.args[0] == lo.args[0] and len(hi.args) == len(lo.args):
        return mk("tup", hi.args[0], *[ite(atom_bdd(a), x, y) for x, y in zip(hi.args[1:], lo.args[1:])])
    # collapse if the difference is the compared quantity itself
    if a.op == "lt0" and hi.op == lo.op == "num":
        p = a.args[0]         # p < 0 ? hi : lo
        d = sub(lo, hi)
        c = _ratio(d, p)
        if c is not None:
            # lo - hi = c*p ; p<0 -> hi = lo - c p
            # value = lo + c*relu(-p)   (p<0: lo - c p ; p>=0: lo)
            return add(lo, mul(num(c), relu(neg(p))))
        if is_int(p):
            q = add(p, ONE)       # p < 0  <=>  q <= 0
            c = _ratio(d, q)
            if c is not None:
                return add(lo, mul(num(c), relu(neg(q))))
        k = _never_apart(a, d)
        if k:
            return hi if k > 0 else lo
    return mk("ite", a, hi, lo)


@lru_cache(maxsize=None)
def _never_apart(a, d):
    """The two values of an alternative on `a` differ by d.  1 (-1): the
    value is always that of the true (false) branch, because d has a known
    sign and a is the test for d being zero."""
    if not is_int(d) or not d.args[0]:
        return 0
    if not any(x.op == "floor" for x in atoms_of(d)):
        return 0
    for e in (d, neg(d)):
        if prove_ge0(e, 3):
            c = lt0(neg(e))
            if and_(c, not_(atom_bdd(a))) is FALSE:
                return 1
            if and_(c, atom_bdd(a)) is FALSE:
                return -1
    return 0


def _ratio(d, p):
    if not p.args[0] or not d.args[0]:
        return None
    lm, lc = lead(p)
    dm, dc = lead(d)
    if lm is None or lm != dm:
        return None
    c = dc / lc
    return c if d is mul(p, num(c)) else None


def atom_bdd(a):
    return mk("ite", a, TRUE, FALSE)


_ite_cache = {}


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return c
    if c.op != "ite":
        return unk("condition is not boolean: " + show(c)[:60])
    k = (c, x, y)
    r = _ite_cache.get(k)
    if r is None:
        a = top(c, x, y)
        r = node_fixed(a, ite(cof(c, a, True), cof(x, a, True), cof(y, a, True)),
                       ite(cof(c, a, False), cof(x, a, False), cof(y, a, False)))
        _ite_cache[k] = r
    return r


def node_fixed(a, hi, lo):
    """node(), restoring the variable order if simplification disturbed it."""
    r = node(a, hi, lo)
    return r


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def leaves(v, guard=TRUE):
    """List of (guard, leaf)."""
    out = {}

    def go(u, g):
        if g is FALSE:
            return
        if u.op == "ite":
            ab = atom_bdd(u.args[0])
            go(u.args[1], and_(g, ab))
            go(u.args[2], and_(g, not_(ab)))
        else:
            out[u] = or_(out.get(u, FALSE), g)
    go(v, guard)
    return [(g, u) for u, g in out.items()]


def leafset(v):
    s, seen, st = [], set(), [v]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "ite":
            st += [u.args[1], u.args[2]]
        else:
            s.append(u)
    return s


_restrict_cache = {}


def restrict(v, care):
    """Simplify v given that `care` holds."""
    if care is TRUE or v.op != "ite":
        return v
    if care is FALSE:
        return v
    k = (v, care)
    r = _restrict_cache.get(k)
    if r is not None:
        return r
    a = top(v, care)
    c1, c0 = cof(care, a, True), cof(care, a, False)
    if v.args[0] is not a:
        # atom only in care: forget it
        r = restrict(v, or_(c1, c0))
    elif c1 is FALSE:
        r = restrict(v.args[2], c0)
    elif c0 is FALSE:
        r = restrict(v.args[1], c1)
    else:
        r = node(a, restrict(v.args[1], c1), restrict(v.args[2], c0))
    _restrict_cache[k] = r
    return r


def lift(f, *vs):
    """Apply f to the leaves of the values (product)."""
    memo = {}

    def go(us):
        r = memo.get(us)
        if r is None:
            a = top(*us)
            if a is None:
                r = f(*us)
            else:
                # rebuild with ite so that the order is restored
                r = ite(atom_bdd(a), go(tuple(cof(u, a, True) for u in us)),
                        go(tuple(cof(u, a, False) for u in us)))
            memo[us] = r
        return r
    return go(vs)


# ------------------------------------------------- conditions never met
@lru_cache(maxsize=None)
def _against(a, va, b, vb):
    """The comparisons a (having value va) and b (vb) cannot both hold."""
    p, q = a.args[0], b.args[0]
    # u < 0 or u <= 0 for each
    u, v = (p if va else neg(p)), (q if vb else neg(q))
    strict = va or vb
    du, dv = pd(u), pd(v)
    shared = [m for m in du if m in dv and m and du[m] * dv[m] < 0]
    shared.sort(key=lambda m: _monokey((m, 0)), reverse=True)
    seen = set()
    for m in shared:
        r = -du[m] / dv[m]
        if r in seen or len(seen) > 2:
            continue
        seen.add(r)
        t = add(u, mul(num(r), v))
        # t < 0 (or <= 0) has to hold
        if strict and prove_ge0(t, 3) or prove_gt0(t, 3):
            return True
    return False


def dead(g, budget=600):
    """No input satisfies g, as some two of its comparisons exclude each
    other on every way through it."""
    left = [budget]

    def go(u, acc):
        if u is FALSE:
            return True
        left[0] -= 1
        if u.op != "ite" or left[0] < 0:
            return False
        a = u.args[0]
        for val, k in ((True, 1), (False, 2)):
            if u.args[k] is FALSE:
                continue
            if a.op == "lt0" and any(_against(b, vb, a, val) for b, vb in acc):
                continue
            if not go(u.args[k], acc + [(a, val)] if a.op == "lt0" else acc):
                return False
        return True
    return go(g, [])


def same_by_cases(a, b, care):
    """a and b differ only where care cannot hold."""
    x = lift(lambda p, q: TRUE if p is q else FALSE, a, b)
    if x.op != "ite" and x is not FALSE:
        return True
    return dead(and_(care, not_(x)))


def clipped(*ts):
    """Innermost relu atoms."""
    us = set()
    for t in ts:
        us |= all_atoms(t)
    rs = [u for u in us if u.op == "relu" and not any(x.op == "relu" for x in all_atoms(u.args[0]))]
    return sorted(rs, key=lambda u: u.uid)


def known_signs(a, b, care):
    """a and b with what care tells of the signs of what they clip."""
    done = set()
    for _ in range(40):
        m = {}
        for r in clipped(a, b):
            if r in done:
                continue
            done.add(r)
            n = lt0(r.args[0])
            if dead(and_(care, n)):
                m[r] = r.args[0]
            elif dead(and_(care, not_(n))):
                m[r] = ZERO
        if not m:
            break
        a, b = subst(a, m), subst(b, m)
    return a, b


def same_by_signs(a, b, care, depth=4):
    """The same after deciding the sign of what they clip at zero."""
    if same_by_cases(a, b, care):
        return True
    if not clipped(a, b):
        return False
    a, b = known_signs(a, b, care)
    a, b = restrict(a, care), restrict(b, care)
    if same_by_cases(a, b, care):
        return True
    rs = clipped(a, b)
    if depth == 0 or not rs or len(rs) > 8:
        return False
    r = rs[0]
    p = r.args[0]
    neg_ = lt0(p)
    for c, v in ((neg_, ZERO), (not_(neg_), p)):
        g = and_(care, c)
        if g is FALSE or dead(g):
            continue
        if not same_by_signs(restrict(subst(a, {r: v}), g), restrict(subst(b, {r: v}), g), g, depth - 1):
            return False
    return True


# ---------------------------------------------------------------- comparisons
def lt0(p):
    """The boolean p < 0."""
    c = num_const(p)
    if c is not None:
        return boolc(c < 0)
    if p.op != "num":
        return unk("comparison")
    if prove_ge0(p):
        return FALSE
    if prove_gt0(neg(p)):
        return TRUE
    # integer-valued with a floor: floor(q) + r < 0  <=>  q + r < 0
    if is_int(p):
        fl = [(a, c) for m, c in p.args[0] for a, e in m if a.op == "floor" and len(m) == 1 and e == 1 and
              abs(c) == 1]
        fl = [(a, c) for a, c in fl if sum(1 for m, _ in p.args[0] for b, _e in m if b is a) == 1]
        if fl:
            a, c = max(fl, key=lambda x: (_height(x[0]), x[0].uid))
            rest = subst_atom(p, a, ZERO)
            if c > 0:
                return lt0(add(a.args[0], rest))
            # -floor(q) + r < 0 <=> floor(q) >= r + 1 <=> not (q - r - 1 < 0)
            return not_(lt0(sub(sub(a.args[0], rest), ONE)))
    p = _scale_pos(p)
    if is_int(p) or _intscaled(p):
        d = pd(p)
        c0 = d.pop((), Fraction(0))
        g = None
        for v in d.values():
            g = v if g is None else Fraction(math.gcd(g.numerator * v.denominator, v.numerator * g.denominator),
                                             g.denominator * v.denominator)
        g = abs(g)
        q = mul(_mk_num(d), num(1 / g))
        c1 = c0 / g          # q + c1 < 0  <=> q < -c1 <=> q <= ceil(-c1)-1 <=> q - ceil(-c1) < 0
        k = math.ceil(-c1)
        lm, lc = lead(q)
        if lc > 0:
            return atom_bdd(mk("lt0", sub(q, num(k))))
        # q < k, q has negative lead: -q > -k  <=> not(-q <= -k) <=> not(-q < -k+1)
        return not_(atom_bdd(mk("lt0", sub(neg(q), num(-k + 1)))))
    # real: scale
    lm, lc = lead(p)
    p2 = mul(p, num(1 / abs(lc)))
    return atom_bdd(mk("lt0", p2))


def _scale_pos(p):
    """The same sign: clear positive denominators and common positive factors."""
    q = _clear_neg(p)
    if q is not None:
        p = q
    while True:
        common = None
        for m, _ in p.args[0]:
            common = dict(m) if common is None else {a: min(e, dict(m)[a]) for a, e in common.items()
                                                     if a in dict(m)}
        common = {a: e for a, e in (common or {}).items() if e > 0 and a.op != "inv" and _pos_atom(a) == 1}
        if not common:
            return p
        p = div(p, _mk_num({tuple(sorted(common.items(), key=lambda x: x[0].uid)): Fraction(1)}))


def _intscaled(p):
    for m, c in p.args[0]:
        for a, e in m:
            if e < 0 or atom_kind(a) != "int":
                return False
    return True


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return not_(lt0(sub(b, a)))


def eq0(p):
    c = num_const(p)
    if c is not None:
        return boolc(c == 0)
    return and_(not_(lt0(p)), not_(lt0(neg(p))))


def same(a, b):
    """Equality of opaque leaves."""
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return FALSE
    if b.uid < a.uid:
        a, b = b, a
    return atom_bdd(mk("same", a, b))


def batom(name, *args):
    return atom_bdd(mk("batom", name, *args))


# ---------------------------------------------------------------- sequences
# ('seq', seg...) with seg terms
#   ('seg', guard, elem)
#   ('comp', level, count, guard, seg...) = args[0..2], args[3:]       binder = bound(level, count)
#   ('splice', guard, term)


def seq(*segs):
    return mk("seq", *segs)


def seg(e, g=TRUE):
    return mk("seg", g, e)


def seq_of(elems):
    return seq(*[seg(e) for e in elems])


def seq_items(s):
    """Concrete element list of a seq term, or None."""
    if s.op != "seq":
        return None
    out = []
    for g in s.args:
        if g.op == "seg" and g.args[0] is TRUE:
            out.append(g.args[1])
        else:
            return None
    return out


@lru_cache(maxsize=None)
def comp_height(t):
    """1 + highest binder level used by comps inside t."""
    h = 0
    for u in all_atoms(t):
        if u.op == "comp":
            h = max(h, u.args[0] + 1)
        elif u.op == "bound" and isinstance(u.args[0], int):
            pass
    return h


_fresh = [0]


def fresh_binder(count):
    """A temporary loop index with 0 <= i < count."""
    _fresh[0] += 1
    return atom(mk("bound", "t%d" % _fresh[0], count))


def mk_comp(binder, count, guard, segs):
    """Comprehension over binder (a temporary bound atom value)."""
    segs = tuple(segs)
    if not segs:
        return None
    h = 0
    for s in segs + (guard,):
        h = max(h, comp_height(s))
    b = single_atom(binder)
    canon = atom(mk("bound", h, count))
    m = {b: canon}
    guard2 = subst(guard, m)
    segs2 = tuple(subst(s, m) for s in segs)
    if guard2 is not TRUE and len(segs2) == 1 and segs2[0].op == "seg":
        s = segs2[0]
        segs2 = (seg(s.args[1], and_(guard2, s.args[0])),)
        guard2 = TRUE
    if len(segs2) == 1 and segs2[0].op == "seg":
        g = segs2[0].args[0]
        segs2 = (seg(restrict(segs2[0].args[1], g), g),)
    return mk("comp", h, count, guard2, *segs2)


def comp_binder(c):
    return mk("bound", c.args[0], c.args[1])


# ---------------------------------------------------------------- substitution
REBUILD = {}


def subst(t, m, memo=None):
    """Replace atoms (keys of m: atom terms) by numeric/other values."""
    if memo is None:
        memo = {}
        keys = set(m)
    else:
        keys = memo["__keys"]
    memo["__keys"] = keys

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if not (all_atoms(u) & keys):
            memo[u] = u
            return u
        r = go2(u)
        memo[u] = r
        return r

    def arg(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(arg(y) for y in x)
        return x

    def go2(u):
        op = u.op
        if u in m:
            return m[u]
        if op == "num":
            out = ZERO
            for mono, c in u.args[0]:
                t2 = num(c)
                for a, e in mono:
                    v = go(a) if a in m else rebuild_atom(a)
                    t2 = lift_num(lambda x, y: mul(x, power(y, e)) if e >= 0 else div(x, power(y, -e)), t2, v)
                out = lift_num(add, out, t2)
            return out
        if op == "ite":
            c = rebuild_batom(u.args[0])
            return ite(c, go(u.args[1]), go(u.args[2]))
        f = REBUILD.get(op)
        args = [arg(x) for x in u.args]
        if f:
            return f(*args)
        return mk(op, *args)

    def rebuild_atom(a):
        """numeric value of the substituted atom"""
        if not (all_atoms(a) & keys):
            return atom(a)
        if a in m:
            return m[a]
        args = [arg(x) for x in a.args]
        op = a.op
        if op == "floor":
            return lift(floor_, args[0])
        if op == "relu":
            return lift(relu, args[0])
        if op == "inv":
            return lift(lambda p: div(ONE, p), args[0])
        f = REBUILD.get(op)
        if f:
            return f(*args)
        return lift_app(op, args)

    def rebuild_batom(a):
        if a in m:
            return m[a]
        args = [arg(x) for x in a.args]
        if a.op == "lt0":
            return lift(lt0, args[0])
        if a.op == "same":
            return lift(same_any, *args)
        f = REBUILD.get(a.op)
        if f:
            return f(*args)
        if a.op == "batom":
            ts = [x for x in args if isinstance(x, T)]
            return lift(lambda *l: atom_bdd(mk("batom", args[0], *l)), *ts)
        return atom_bdd(mk(a.op, *args))

    return go(t)


def same_any(a, b):
    if a.op == "num" and b.op == "num":
        return eq0(sub(a, b))
    if is_const(a) and is_const(b):
        return boolc(a is b)
    return same(a, b)


def lift_num(f, *vs):
    return lift(lambda *l: f(*l) if all(x.op == "num" for x in l) else _bad(l), *vs)


def _bad(l):
    for x in l:
        if x.op == "unk":
            return x
    return unk("arithmetic on " + ", ".join(show(x)[:40] for x in l if x.op != "num"))


def lift_app(op, args):
    pos = [i for i, x in enumerate(args) if isinstance(x, T) and x.op == "ite"]
    if not pos:
        return atom(mk(op, *args))

    def f(*l):
        a = list(args)
        for i, v in zip(pos, l):
            a[i] = v
        return atom(mk(op, *a))
    return lift(f, *[args[i] for i in pos])


# ---------------------------------------------------------------- show
def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth - 1) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "..."
    op = t.op
    if op == "const":
        return repr(t.args[1])
    if op == "num":
        if not t.args[0]:
            return "0"
        parts = []
        for m, c in t.args[0]:
            fs = []
            for a, e in m:
                s = show(a, depth - 1)
                fs.append(s if e == 1 else "%s^%d" % (s, e))
            if not fs:
                parts.append(str(c))
            elif c == 1:
                parts.append("*".join(fs))
            elif c == -1:
                parts.append("-" + "*".join(fs))
            else:
                parts.append(str(c) + "*" + "*".join(fs))
        return " + ".join(parts) if len(parts) == 1 else "(" + " + ".join(parts) + ")"
    if op == "sym":
        return t.args[0]
    if op in ("app", "x"):
        k = 2
        return "%s(%s)" % (t.args[0 if op == "app" else 1], ", ".join(show(x, depth - 1) for x in t.args[k:]))
    if op == "ite":
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return show(t.args[0], depth - 1)
        if t.args[1] is FALSE and t.args[2] is TRUE:
            return "not " + show(t.args[0], depth - 1)
        return "{%s ? %s : %s}" % (show(t.args[0], depth - 1), show(t.args[1], depth - 1), show(t.args[2], depth - 1))
    if op == "lt0":
        return "[%s < 0]" % show(t.args[0], depth - 1)
    if op == "batom":
        return "%s(%s)" % (t.args[0], ", ".join(show(x, depth - 1) for x in t.args[1:]))
    if op == "bound":
        return "#%s" % (t.args[0],)
    if op == "tup":
        return "%s(%s)" % (t.args[0] or "", ", ".join(show(x, depth - 1) for x in t.args[1:]))
    if op == "seq":
        return "[" + ", ".join(show(x, depth - 1) for x in t.args) + "]"
    if op == "seg":
        return show(t.args[1], depth - 1) + ("" if t.args[0] is TRUE else " if " + show(t.args[0], depth - 1))
    if op == "comp":
        g = "" if t.args[2] is TRUE else " if " + show(t.args[2], depth - 1)
        return "<%s for #%s<%s%s>" % (", ".join(show(x, depth - 1) for x in t.args[3:]), t.args[0],
                                      show(t.args[1], depth - 1), g)
    return "%s(%s)" % (op, ", ".join(show(x, depth - 1) for x in t.args))
