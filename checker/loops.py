"""Loop summaries.

A loop body is evaluated once to find what it carries from one iteration to
the next, then once more with a symbolic index and placeholders for the
carried values.  Recognised recurrences get closed forms that do not depend
on how the loop was written: appended elements (a comprehension), running
sums, maxima and minima, flags, stores at the loop index, the last value, the
first exit.  Anything else becomes an opaque but canonical value.
"""
import ast
from fractions import Fraction

from terms import (T, mk, const, TRUE, FALSE, NONE, unk, num, num_const, ZERO, ONE, atom, is_int, add, sub, mul, div,
                   neg, ite, not_, and_, or_, lt, le, eq0, batom, seq, seg, seq_items, fresh_binder, subst,
                   single_atom, restrict, lift, lift_num, leaves, leafset, all_atoms, max_, min_, comp_binder,
                   lt0, prove_ge0, prove_gt0, atom_bdd, cof)
import terms

_n = [0]


def undef():
    from interp import UNDEF
    return UNDEF


# ------------------------------------------------------------ comprehension terms
def comp(I, b, count, guard, segs):
    """mk_comp() that remembers which canonical index stands for b."""
    r = terms.mk_comp(b, count, guard, segs)
    if r is not None:
        I.origin.setdefault(single_atom(b), set()).add(comp_binder(r))
    return r


def gen_seq(I, count, elem):
    if isinstance(count, tuple):
        return count[1]
    y = I.newlist(seq())
    run_loop(I, dummy(I), count, lambda b: append(I, y, elem(b)))
    return restrict(I.obj(y).fields["seq"], I.G)


def dummy(I):
    from interp import Frame
    f = I.frames[-1] if I.frames else None
    d = Frame(None, f.module if f else None, None)
    return d


def append(I, y, v):
    I.models.list_append(I, y, v)


def map_seq(I, st, f):
    """Element-wise image of a sequence term."""
    y = I.newlist(seq())
    nested(I, dummy(I), st, lambda v: append(I, y, f(v)))
    return I.obj(y).fields["seq"]


def gen_filter(I, st, pred):
    y = I.newlist(seq())

    def body(v):
        G0 = I.G
        I.G = and_(G0, pred(v))
        if I.G is not FALSE:
            append(I, y, v)
        I.G = G0
    nested(I, dummy(I), st, body)
    return I.obj(y).fields["seq"]


def gen_product(I, sts):
    y = I.newlist(seq())

    def go(k, acc):
        if k == len(sts):
            append(I, y, mk("tup", "", *acc))
        else:
            nested(I, dummy(I), sts[k], lambda v: go(k + 1, acc + [v]))
    go(0, [])
    return I.obj(y).fields["seq"]


def first_of(I, st, default):
    """next(iterable[, default])."""
    out, found = None, FALSE
    if st.op == "symseq":
        out = I.seq_elem(st, ZERO)
        found = lift(lambda n: not_(eq0(n)), st.args[2])
    else:
        for s in st.args:
            if s.op == "seg":
                g, v = s.args[0], s.args[1]
            elif s.op == "comp" and len(s.args) == 4 and s.args[3].op == "seg":
                b = fresh_binder(s.args[1])
                ba = single_atom(b)
                g0 = subst(and_(s.args[2], s.args[3].args[0]), {comp_binder(s): b})
                g = exists_at(I, b, s.args[1], g0)
                v = I.instantiate(s.args[3].args[1], comp_binder(s), first_index(I, b, s.args[1], g0))
            else:
                return I.unknown("next")
            out = v if out is None else ite(found, out, v)
            found = or_(found, g)
            if found is TRUE:
                break
    if out is None:
        out = undef()
    if default is not None:
        return default if out is undef() else ite(found, out, default)
    I.raise_if(not_(found), "StopIteration")
    return out


# ------------------------------------------------------------ quantifiers
def exists_at(I, b, count, cond):
    """Some 0 <= b < count satisfies cond."""
    ba = single_atom(b)
    nonempty = lift(lambda c: not_(eq0(c)), count)
    memo = {}

    def go(c):
        if c is FALSE:
            return FALSE
        if ba not in all_atoms(c):
            return and_(c, nonempty)
        r = memo.get(c)
        if r is None:
            ind = [a for a in _atoms(c) if ba not in all_atoms(a)]
            if ind:
                a = min(ind, key=lambda x: x.uid)
                r = ite(atom_bdd(a), go(restrict(c, atom_bdd(a))), go(restrict(c, not_(atom_bdd(a)))))
            else:
                r = one(c)
            memo[c] = r
        return r

    def one(c):
        # single literal, monotone in b: test an end of the range
        if c.op == "ite" and c.args[0].op == "lt0" and {c.args[1], c.args[2]} == {TRUE, FALSE}:
            p = c.args[0].args[0]
            pos = c.args[1] is TRUE
            inside = [m for m, _ in p.args[0] if any(ba in all_atoms(x) for x, _e in m)]
            if len(inside) == 1 and inside[0] == ((ba, 1),):
                k = dict(p.args[0])[inside[0]]
                at = ZERO if (k > 0) == pos else sub(count, ONE) if count.op == "num" else None
                if at is not None:
                    return and_(nonempty, subst(c, {ba: at}))
        t = comp(I, b, count, TRUE, [seg(NONE, c)])
        return batom("exists", t)
    return go(cond)


def _atoms(c):
    s, seen, st = set(), set(), [c]
    while st:
        u = st.pop()
        if u in seen or u.op != "ite":
            continue
        seen.add(u)
        s.add(u.args[0])
        st += [u.args[1], u.args[2]]
    return s


def first_index(I, b, count, cond):
    if single_atom(b) not in all_atoms(cond):
        return ZERO
    t = comp(I, b, count, TRUE, [seg(NONE, cond)])
    return atom(mk("app", "firstidx", "int", t))


# ------------------------------------------------------------ iteration
def iterate(I, fr, dom, body, conc_max=64):
    """Run body(value) for every element of a domain (see Interp.domain)."""
    count, elem, conc = dom
    if isinstance(count, tuple):
        return nested(I, fr, count[1], body)
    if conc is not None and len(conc) <= conc_max:
        for g, x in conc:
            if I.G is FALSE:
                return
            G0 = I.G
            I.G = and_(G0, g)
            if I.G is not FALSE:
                body(x)
            I.G = or_(I.G, and_(G0, not_(g)))
        return
    run_loop(I, fr, count, lambda b: body(elem(b)))


def nested(I, fr, st, body):
    if st.op == "symseq":
        return run_loop(I, fr, st.args[2], lambda b: body(I.seq_elem(st, b)))
    for s in st.args:
        if I.G is FALSE:
            return
        if s.op == "seg":
            G0 = I.G
            I.G = and_(G0, s.args[0])
            if I.G is not FALSE:
                body(s.args[1])
            I.G = or_(I.G, and_(G0, not_(s.args[0])))
        elif s.op == "comp":
            def inner(b, s=s):
                cb = comp_binder(s)
                G0 = I.G
                g = subst(s.args[2], {cb: b})
                I.G = and_(G0, g)
                if I.G is not FALSE:
                    segs = [I.instantiate(x, cb, b) for x in s.args[3:]]
                    nested(I, fr, seq(*segs), body)
                I.G = or_(I.G, and_(G0, not_(g)))
            run_loop(I, fr, s.args[1], inner)
        elif s.op == "splice":
            G0 = I.G
            I.G = and_(G0, s.args[0])
            u = s.args[1]
            if I.G is not FALSE:
                if u.op in ("seq", "symseq"):
                    nested(I, fr, u, body)
                else:
                    n = atom(mk("len", u.args[2] if u.op == "x" and u.args[0] in ("items", "values") else u))
                    run_loop(I, fr, n, lambda b: body(I.models.x_elem(I, u, b)))
            I.G = or_(I.G, and_(G0, not_(s.args[0])))
        else:
            n = I.seq_len(seq(s))
            run_loop(I, fr, n, lambda b, s=s: body(I.seq_elem(seq(s), b)))


def run_for(I, s, fr, count, elem):
    lp = {"break": FALSE, "cont": FALSE}
    fr.loops.append(lp)

    def body(x):
        I.bindt(s.target, x, fr)
        I.block(s.body, fr)
        I.G = or_(I.G, lp["cont"])
        lp["cont"] = FALSE
    iterate(I, fr, (count, elem, None), body)
    fr.loops.pop()
    if s.orelse:
        I.block(s.orelse, fr)
    I.G = or_(I.G, lp["break"])


def run_comp(I, e, fr):
    y = I.newlist(seq())
    comp_into(I, e, fr, lambda ch: append(I, y, I.ev(e.elt, ch)))
    return restrict(I.obj(y).fields["seq"], I.G)


def run_dictcomp(I, e, fr):
    y = I.newlist(seq())
    comp_into(I, e, fr, lambda ch: append(I, y, mk("tup", "", I.ev(e.key, ch), I.ev(e.value, ch))))
    st = restrict(I.obj(y).fields["seq"], I.G)
    d = I.alloc("dict", d=seq())
    if seq_items(st) is not None:
        for p in seq_items(st):
            I.models.dict_set(I, d, p.args[1], p.args[2])
    else:
        I.obj(d).fields["d"] = st
    return d


def comp_into(I, e, fr, emit):
    from interp import Frame
    ch = Frame(None, fr.module, fr)
    I.frames.append(ch)

    def go(k):
        if k == len(e.generators):
            emit(ch)
            return
        gen = e.generators[k]
        src = fr if k == 0 else ch
        it = I.ev(gen.iter, src)
        dom = I.domain(it)
        if dom is None:
            I.unknown("comprehension over " + terms.show(it)[:60])
            dom = (terms.sym("unknown-count", "int"), lambda i: unk("element of unknown iterable"), None)

        def body(x):
            G0 = I.G
            I.bindt(gen.target, x, ch)
            skipped = FALSE
            for c in gen.ifs:
                t = I.truth(I.ev(c, ch))
                skipped = or_(skipped, and_(I.G, not_(t)))
                I.G = and_(I.G, t)
                if I.G is FALSE:
                    break
            if I.G is not FALSE:
                go(k + 1)
            I.G = or_(I.G, skipped)
        cm = 64 if not I.is_simple_range(it) else 8
        iterate(I, ch, dom, body, cm)
    go(0)
    I.frames.pop()


# ------------------------------------------------------------ journal
class Journal:
    """First-write copies of everything changed since its creation."""

    def __init__(self, I, fr):
        self.I, self.fr = I, fr
        self.nid = I.nid
        self.heap = {}
        self.cls = {}
        self.env = dict(fr.env)
        self.ret, self.retg = fr.ret, fr.retg
        self.ev, self.wr, self.ex = len(I.events), len(I.writes), len(I.excs[-1])
        self.G = I.G
        self.wh = len(I.whiles)
        self.lp = dict(fr.loops[-1]) if fr.loops else None
        I.journals.append(self)

    def touch(self, oid, name):
        I = self.I
        if isinstance(oid, int):
            if oid <= self.nid and oid not in self.heap and oid in I.heap:
                self.heap[oid] = dict(I.heap[oid].fields)
        elif hasattr(oid, "attrs") and (oid, name) not in self.cls:
            self.cls[(oid, name)] = oid.attrs.get(name)

    def diff(self):
        out = []
        for n, v in self.fr.env.items():
            if self.env.get(n) is not v:
                out.append(("env", n, None, self.env.get(n), v))
        for oid, old in self.heap.items():
            new = self.I.heap[oid].fields
            for k in list(dict.fromkeys(list(old) + list(new))):
                if old.get(k) is not new.get(k):
                    out.append(("fld", k, oid, old.get(k), new.get(k)))
        return out

    def close(self):
        self.I.journals.remove(self)

    def restore(self):
        I, fr = self.I, self.fr
        self.close()
        fr.env.clear()
        fr.env.update(self.env)
        fr.ret, fr.retg = self.ret, self.retg
        for oid, old in self.heap.items():
            f = I.heap[oid].fields
            f.clear()
            f.update(old)
        for (c, n), v in self.cls.items():
            if v is None:
                c.attrs.pop(n, None)
            else:
                c.attrs[n] = v
        del I.events[self.ev:]
        del I.writes[self.wr:]
        del I.excs[-1][self.ex:]
        del I.whiles[self.wh:]
        I.G = self.G
        if self.lp is not None:
            fr.loops[-1].clear()
            fr.loops[-1].update(self.lp)


class WriteLog(list):
    def __init__(self, I):
        self.I = I

    def append(self, w):
        for j in self.I.journals:
            j.touch(w[0], w[1])
        list.append(self, w)


# ------------------------------------------------------------ carried values
class Carry:
    def __init__(self, kind, name, oid, init, dry, G=TRUE):
        self.kind, self.name, self.oid, self.full = kind, name, oid, init
        # (the loop sees only what the location holds when it is entered)
        init = self.init = restrict(init, G) if init is not None and G is not TRUE else init
        self.at = None
        self.post = None
        U = undef()
        li = [x for x in leafset(init) if x is not U] if init is not None else []
        ld = [x for x in leafset(dry) if x is not U] if dry is not None else []
        _n[0] += 1
        self.id = "c%d" % _n[0]
        if not li:
            self.shape = "undef"
        elif all(x.op == "num" for x in li + ld):
            self.shape = "num"
            self.nk = "int" if all(is_int(x) for x in li + ld) else "real"
        elif all(x is TRUE or x is FALSE for x in li + ld):
            self.shape = "bool"
        elif all(x.op == "ang" for x in li + ld):
            self.shape = "ang"
        elif li == [NONE] and any(x.op in ("num", "ang") for x in ld) and \
                len({x.op for x in ld if x is not NONE}) == 1:
            # nothing at first
            self.shape, self.of = "opt", [x.op for x in ld if x is not NONE][0]
            self.nk = "int" if self.of == "num" and all(is_int(x) for x in ld if x is not NONE) else "real"
        elif all(x.op in ("seq", "symseq") for x in li + ld):
            st = any(y.op == "stored" for x in ld if x.op == "seq" for y in x.args[:1])
            self.shape = "store" if st else "app"
        else:
            self.shape = "gen"
        self.key = None
        self.none = None        # a second key: still nothing
        self.ph = None

    def keys(self):
        return {self.key, self.none} - {None}

    def placeholder(self, I, b):
        if self.shape == "num":
            self.key = mk("carry", self.id, None, self.nk)
            self.ph = atom(self.key)
        elif self.shape == "ang":
            self.key = mk("carry", self.id, None, "real")
            self.ph = mk("ang", atom(self.key))
        elif self.shape == "opt":
            self.key = mk("carry", self.id, None, self.nk)
            self.none = mk("batom", "carry", const(self.id + " none"))
            v = atom(self.key)
            self.ph = ite(atom_bdd(self.none), NONE, mk("ang", v) if self.of == "ang" else v)
        elif self.shape == "bool":
            self.key = mk("batom", "carry", const(self.id))
            self.ph = atom_bdd(self.key)
        elif self.shape == "app":
            self.key = mk("x", "seq", "carry", const(self.id))
            self.ph = seq(mk("splice", TRUE, self.key))
        elif self.shape == "store":
            init = self.init
            if init.op == "ite":
                self.shape = "gen"
                return self.placeholder(I, b)
            self.key = mk("carryseq", self.id, init, single_atom(b) if b is not None else NONE)
            k = init.args[1] if init.op == "symseq" else (I.seq_kind(init) or "any")
            self.ph = mk("symseq", self.key, k, I.seq_len(init))
        else:
            self.key = mk("x", None, "carry", const(self.id))
            self.ph = self.key
        return self.ph

    def has(self, t):
        return has_any(t, self.keys())


def get(I, fr, c):
    return fr.env.get(c.name) if c.kind == "env" else I.heap[c.oid].fields.get(c.name)


def put(I, fr, c, v):
    if c.kind == "env":
        if v is None:
            fr.env.pop(c.name, None)
        else:
            fr.env[c.name] = v
    else:
        I.writes.append((c.oid, c.name, I.G, v, I.heap[c.oid].fields.get(c.name), I.loc()))
        if v is None:
            I.heap[c.oid].fields.pop(c.name, None)
        else:
            I.heap[c.oid].fields[c.name] = v


def has_any(t, keys):
    return not keys.isdisjoint(all_atoms(t)) if t is not None else False


def run_loop(I, fr, count, body, preset=None):
    if I.G is FALSE:
        return
    count = restrict(count, I.G)
    if count.op == "ite":
        G0, out = I.G, FALSE
        for g, c in leaves(count):
            I.G = and_(G0, g)
            if I.G is not FALSE:
                run_loop(I, fr, c, body, preset)
            out = or_(out, I.G)
        I.G = out
        return
    if num_const(count) == 0:
        return
    if count.op != "num":
        count = atom(mk("len", count))
    b = fresh_binder(count)
    ba = single_atom(b)
    G0 = I.G
    preset = preset or {}

    def once(setup):
        I.loops.append((ba, count))
        for n, f in preset.items():
            fr.env[n] = f(b)
        setup()
        body(b)
        I.loops.pop()

    j = Journal(I, fr)
    once(lambda: None)
    found = [(k, n, o, i, p) for k, n, o, i, p in j.diff()]
    j.restore()
    carries = [Carry(*x, G0) for x in found if not (x[0] == "env" and x[1] in preset)]

    for attempt in range(3):
        j = Journal(I, fr)
        nid0 = I.nid
        prevbreak = fr.loops[-1]["break"] if fr.loops else FALSE
        if fr.loops:
            fr.loops[-1]["break"] = FALSE
        fr.ret, fr.retg = NONE, FALSE

        def setup():
            for c in carries:
                ph = c.placeholder(I, b)
                if c.shape != "undef":
                    put(I, fr, c, ph)
        once(setup)
        known = {(c.kind, c.name, c.oid) for c in carries}
        extra = [x for x in j.diff() if (x[0], x[1], x[2]) not in known and not (x[0] == "env" and x[1] in preset)]
        if not extra or attempt == 2:
            break
        j.restore()
        carries += [Carry(*x, G0) for x in extra]
    j.close()
    for c in carries:
        c.post = get(I, fr, c)
    pposts = {n: fr.env[n] for n in preset}
    rv, gr = fr.ret, fr.retg
    fr.ret, fr.retg = j.ret, j.retg
    gb = fr.loops[-1]["break"] if fr.loops else FALSE
    exs = I.excs[-1][j.ex:]
    del I.excs[-1][j.ex:]
    stop = or_(gr, gb, *[g for g, _ in exs])
    go_on = and_(G0, not_(stop))
    unsolved = [c for c in carries]
    sol = {}

    # solve what can be solved
    progress = True
    while progress and unsolved:
        progress = False
        for c in list(unsolved):
            P = restrict(c.post, go_on) if c.post is not None else None
            if sol and P is not None:
                P = subst(P, sol)
            others = {k for u in carries if u is not c for k in u.keys() if k not in sol}
            if P is None or has_any(P, others):
                continue
            at = solve(I, c, P, b, ba, count)
            if at is None:
                continue
            c.at = at
            unsolved.remove(c)
            try:
                v = at(b)
            except _NoPartial:
                v = None
            if v is not None and c.key is not None and c.shape not in ("store", "opt"):
                sol[c.key] = unwrap(c, v)
            progress = True
        if not progress:
            progress = extremes(I, carries, unsolved, go_on, ba, count, sol)
    if unsolved:
        sig = mk("loopsig", count, *[mk("tup", "", c.init if c.init is not None else NONE,
                                        canon(unsolved, ba, subst(restrict(c.post, go_on), sol)
                                              if c.post is not None else NONE)) for c in unsolved])
        fwd = {}
        for k, c in enumerate(unsolved):
            fwd[c.key] = opaque(I, c, sig, k, b)
            if c.none is not None:
                fwd[c.none] = batom("loopout", sig, num(k), b)
            c.at = (lambda i, c=c, k=k: rewrap(c, opaque(I, c, sig, k, i)))
        sol = {k: subst(v, fwd) for k, v in sol.items()}
        sol.update(fwd)
    # apply the solution to everything the iteration produced
    if sol:
        keys = set(sol)
        for oid in range(nid0 + 1, I.nid + 1):
            o = I.heap.get(oid)
            if o is not None:
                for k, v in list(o.fields.items()):
                    if has_any(v, keys):
                        o.fields[k] = subst(v, sol)
        for e in I.events[j.ev:]:
            e.guard = subst(e.guard, sol)
            e.args = [subst(a, sol) for a in e.args]
            e.kwargs = {k: subst(v, sol) for k, v in e.kwargs.items()}
        stop, gr, gb, rv = subst(stop, sol), subst(gr, sol), subst(gb, sol), subst(rv, sol)
        exs = [(subst(g, sol), e) for g, e in exs]
    # exits
    S = restrict(stop, G0)
    E = exists_at(I, b, count, S) if S is not FALSE else FALSE
    I.G = and_(G0, not_(E))
    if fr.loops:
        fr.loops[-1]["break"] = prevbreak
    f = None
    kinds = len({e for _, e in exs}) + (gr is not FALSE) + (gb is not FALSE)
    if E is not FALSE:
        f = first_index(I, b, count, S)

    def at_stop(g):
        if kinds == 1:
            return and_(G0, E)
        return and_(G0, E, subst(restrict(g, G0), {ba: f}))
    for e in dict.fromkeys(e for _, e in exs):
        g = at_stop(or_(*[x for x, y in exs if y is e]))
        if g is not FALSE:
            I.excs[-1].append((g, e))
    if gr is not FALSE:
        g = at_stop(gr)
        v = I.instantiate(restrict(rv, gr), ba, f)
        fr.ret = ite(g, v, fr.ret) if fr.retg is not FALSE else v
        fr.retg = or_(fr.retg, g)
    bg = FALSE
    if gb is not FALSE:
        bg = at_stop(gb)
        fr.loops[-1]["break"] = or_(prevbreak, bg)
    # final values
    U = undef()
    for c in carries:
        v = c.at(count)
        if bg is not FALSE and c.post is not None:
            pb = restrict(subst(c.post, sol) if sol else c.post, and_(gb, G0))
            if c.shape == "store":
                pb = v
            v = ite(bg, I.instantiate(pb, ba, f), v)
        init = c.full
        if init is None:
            init = U if c.kind == "env" else None
        if G0 is not TRUE:
            v = ite(G0, v, init) if init is not None and init is not U else v
        put(I, fr, c, v)
    for n, fn in preset.items():
        v = fn(count)
        if bg is not FALSE:
            pb = restrict(subst(pposts[n], sol) if sol else pposts[n], and_(gb, G0))
            v = ite(bg, I.instantiate(pb, ba, f), v)
        fr.env[n] = v


class _NoPartial(Exception):
    pass


def unwrap(c, v):
    if c.shape == "ang":
        return lift(lambda u: u.args[0] if u.op == "ang" else unk("angle"), v)
    return v


def rewrap(c, v):
    if c.shape == "app":
        return v if v.op in ("seq", "symseq") else seq(mk("splice", TRUE, v))
    if c.shape == "ang":
        return mk("ang", v) if v.op == "num" else v
    if c.shape == "opt" and v.op == "num":
        a = single_atom(v)
        if a is not None and a.op == "loopout":
            v = mk("ang", v) if c.of == "ang" else v
            return ite(batom("loopout", a.args[0], *a.args[1].args[1:]), NONE, v)
    return v


def opaque(I, c, sig, k, i):
    i = i if i is not None else NONE
    if c.shape in ("num", "ang", "opt"):
        return atom(mk("loopout", sig, mk("tup", "", num(k), i), getattr(c, "nk", "real")))
    if c.shape == "bool":
        return batom("loopout", sig, num(k), i)
    if c.shape == "app":
        return mk("x", "seq", "loopout", sig, num(k), i)
    return mk("x", None, "loopout", sig, num(k), i)


def canon(cs, ba, t):
    m = {}
    for k, c in enumerate(cs):
        if c.shape in ("num", "ang", "opt"):
            m[c.key] = atom(mk("carry", "C%d" % k, None, getattr(c, "nk", "real")))
            if c.none is not None:
                m[c.none] = batom("carry", const("C%d none" % k))
        elif c.shape == "bool":
            m[c.key] = batom("carry", const("C%d" % k))
        elif c.key is not None:
            m[c.key] = mk("x", "seq" if c.shape == "app" else None, "carry", const("C%d" % k))
    if ba is not None:
        m[ba] = atom(mk("bound", "L", None))
    return subst(t, m)


def solve(I, c, P, b, ba, count):
    """Value of the carried location at the start of iteration k, as a
    function of k; None if not recognised."""
    U = undef()
    init = c.init

    def last():
        def at(k):
            n = lift(lambda x: not_(eq0(x)), k)
            if k is b:
                raise _NoPartial()
            v = I.instantiate(P, ba, lift_num(sub, k, ONE))
            if init is None or init is U or n is TRUE:
                return v
            return ite(n, v, init)
        return at
    if not c.has(P):
        return last()
    if c.shape == "undef":
        return None
    if P is c.ph:
        return lambda k: init
    if c.shape == "opt":
        return first_or_extreme(I, c, P, b, ba, count)
    if c.shape in ("num", "ang"):
        ph = atom(c.key)
        Q = unwrap(c, P)
        i0 = unwrap(c, init)
        D = lift_num(sub, Q, ph)
        if not c.has(D):
            return lambda k: rewrap_l(c, lift_num(add, i0, sumto(I, D, b, ba, count, k)))
        r = extreme_of(Q, ph, c)
        if r is not None:
            f, nm, x = r
            kd = "int" if is_int(x) else "real"
            c.extreme = (f is max_, x)

            def at(k):
                if k is not count:
                    raise _NoPartial()
                st = seq(comp(I, b, k, TRUE, [seg(x)]))
                return rewrap_l(c, lift_num(f, i0, atom(mk("app", nm, kd, st))))
            return at
        return None
    if c.shape == "bool":
        t, f = subst(P, {c.key: TRUE}), subst(P, {c.key: FALSE})
        if t is TRUE:
            return lambda k: or_(init, exists_upto(I, b, ba, count, k, f))
        if f is FALSE:
            return lambda k: and_(init, not_(exists_upto(I, b, ba, count, k, not_(t))))
        return None
    if c.shape == "app":
        new = []
        first = mk("splice", TRUE, c.key)
        for g, lf in leaves(P):
            if lf.op != "seq" or not lf.args or lf.args[0] is not first:
                return None
            segs = seq(*lf.args[1:])
            new += list(I.models.guarded_segs(segs, g) if g is not TRUE else segs.args)
        if any(c.has(s) for s in new):
            d = dedup(I, c, new, b, ba, count)
            if d is None:
                return None
            if init.op == "seq" and not init.args:
                return lambda k: d if k is count else _raise()
            return None

        def at(k):
            cm = comp_upto(I, b, ba, count, k, new)
            base = init if init.op != "ite" else None
            if base is None:
                return lift(lambda u: concat(u, cm), init)
            return concat(base, cm)
        return at
    if c.shape == "store":
        val = g = None
        for gg, lf in leaves(P):
            if lf is c.ph:
                continue
            if lf.op == "seq" and len(lf.args) == 1 and lf.args[0].op == "stored":
                base, idx, v, g1 = lf.args[0].args
                if base is c.ph and idx is b and not c.has(v):
                    g2 = and_(gg, g1)
                    if c.has(g2):
                        return None
                    val = v if val is None else ite(g2, v, val)
                    g = or_(g or FALSE, g2)
                    continue
            return None
        if val is None:
            return lambda k: init

        def at(k):
            if k is not count:
                raise _NoPartial()
            n = I.seq_len(init)
            if g is TRUE and n is count:
                return seq(comp(I, b, count, TRUE, [seg(val)]))
            return seq(mk("storedall", init, ba, val, g))
        return at
    return None


def other_side(ph, r):
    """The x of which r is a multiple of x - ph."""
    k = [v for m, v in r.args[0] if m == ((single_atom(ph), 1),)]
    return [sub(ph, mul(r, num(1 / k[0])))] if k else []


def extreme_of(Q, ph, c):
    """Q as the larger or smaller of ph and some x."""
    xs = [x for a in all_atoms(Q) if a.op == "relu" and c.has(a) for x in other_side(ph, a.args[0])]
    for x in xs:
        if not c.has(x):
            for f, nm in ((max_, "maxof"), (min_, "minof")):
                if Q is f(ph, x):
                    return f, nm, x
    if Q.op == "ite":
        xs = [x for x in leafset(Q) if x is not ph]
        if len(xs) == 1 and xs[0].op == "num" and not c.has(xs[0]):
            x, = xs
            for f, nm, up in ((max_, "maxof", lt(ph, x)), (min_, "minof", lt(x, ph)), (max_, "maxof", le(ph, x)),
                              (min_, "minof", le(x, ph))):
                if restrict(Q, up) is x and restrict(Q, not_(up)) is ph:
                    return f, nm, x
    return None


def of_num(u):
    return u.args[0] if u.op == "ang" else u


def first_or_extreme(I, c, P, b, ba, count):
    """Nothing before the first iteration, then the largest or smallest."""
    ph = atom(c.key)
    first = subst(P, {c.none: TRUE})
    if c.has(first) or any(u.op not in ("num", "ang") for u in leafset(first)):
        return None
    x = lift(of_num, first)
    Q = lift(of_num, subst(P, {c.none: FALSE}))
    if any(u.op != "num" for u in leafset(Q)):
        return None
    r = extreme_of(Q, ph, c)
    if r is None or r[2] is not x:
        return None
    c.extreme = (r[0] is max_, x)

    def at(k):
        if k is not count:
            raise _NoPartial()
        kd = "int" if is_int(x) else "real"
        v = atom(mk("app", r[1], kd, seq(comp(I, b, k, TRUE, [seg(x)]))))
        return ite(lift(lambda n: not_(eq0(n)), k), mk("ang", v) if c.of == "ang" else v, NONE)
    return at


def extremes(I, carries, unsolved, go_on, ba, count, sol):
    """Values recorded whenever a carried maximum or minimum changes: those of
    the iteration at which it is attained."""
    U = undef()
    some = False
    for m in carries:
        if getattr(m, "extreme", None) is None or m in unsolved:
            continue
        mx, x = m.extreme
        ph = atom(m.key)
        if x.op != "num":
            continue
        for c in list(unsolved):
            if c.post is None:
                continue
            P = restrict(c.post, go_on)
            P = subst(P, sol) if sol else P
            ph_c = c.ph if c.shape != "undef" else U
            first = None
            if m.none is not None:
                first, P = subst(P, {m.none: TRUE}), subst(P, {m.none: FALSE})
            for strict in (True, False):
                a, z = (ph, x) if mx else (x, ph)
                up = lt(a, z) if strict else le(a, z)
                new, old = restrict(P, up), restrict(P, not_(up))
                if old is ph_c and new is not ph_c and (first is None or first is new):
                    break
            else:
                continue
            mine = {k for u in unsolved + [m] for k in u.keys()}
            if has_any(new, mine):
                continue
            c.at = at_extreme(I, m, c, x, new, mx, strict, ba, count)
            unsolved.remove(c)
            some = True
    for c in list(unsolved):
        r = by_index(I, c, unsolved, go_on, ba, count, sol)
        if r is not None:
            c.at = r
            unsolved.remove(c)
            some = True
    return some


def argbest(I, x, mx, strict, ba, count):
    """The first (or last) iteration at which x is smallest (or largest)."""
    from models import norm_key
    k = fresh_binder(count)
    key = norm_key(neg(x) if mx else x)
    if strict:
        return atom(mk("app", "argmin", "int", seq_arg(I, k, count, I.instantiate(key, ba, k))))
    r = sub(sub(count, ONE), k)
    return sub(sub(count, ONE), atom(mk("app", "argmin", "int", seq_arg(I, k, count, I.instantiate(key, ba, r)))))


def seq_arg(I, k, count, key):
    return comp(I, k, count, TRUE, [seg(key)])


def at_extreme(I, m, c, x, new, mx, strict, ba, count):
    U = undef()

    def at(k):
        if k is not count:
            raise _NoPartial()
        init = c.init if c.init is not None else U
        some = lift(lambda n: not_(eq0(n)), count)
        if m.shape == "opt":
            v = I.instantiate(new, ba, argbest(I, x, mx, strict, ba, count))
            return v if init is U or some is TRUE else ite(some, v, init)
        i0 = unwrap(m, m.init)
        like = lambda u, v: u is v or I.deep(u) is I.deep(v)
        if i0.op == "num" and i0 is I.instantiate(x, ba, ZERO) and init is not U and strict and some is TRUE and \
                like(init, I.instantiate(new, ba, ZERO)):
            # started with the first element
            return I.instantiate(new, ba, argbest(I, x, mx, strict, ba, count))
        if i0.op == "num" and i0 is I.instantiate(x, ba, num(-1)) and init is not U and strict and \
                like(init, I.instantiate(new, ba, num(-1))):
            # started with the element before the first
            n = add(count, ONE)
            b = fresh_binder(n)
            a = single_atom(b)
            j = argbest(I, I.instantiate(x, ba, sub(b, ONE)), mx, True, a, n)
            return I.instantiate(new, ba, sub(j, ONE))
        best = m.at(count)
        best = unwrap(m, best)
        end = atom(mk("app", "maxof" if mx else "minof", "int" if is_int(x) else "real",
                      seq(comp(I, single(ba), count, TRUE, [seg(x)]))))
        hit = lift_num2(lambda p, q: (lt if strict else le)(*((q, p) if mx else (p, q))), end, i0)
        v = I.instantiate(new, ba, argbest(I, x, mx, strict, ba, count))
        g = and_(some, hit)
        return v if init is U or g is TRUE else ite(g, v, init)
    return at


def single(ba):
    return atom(ba)


def lift_num2(f, a, b):
    return lift(f, a, b)


def by_index(I, c, unsolved, go_on, ba, count, sol):
    """The index so far of the largest or smallest."""
    if c.shape != "num" or c.post is None or c.init is None or c.init is not ZERO:
        return None
    P = restrict(c.post, go_on)
    P = subst(P, sol) if sol else P
    b, ph = atom(ba), atom(c.key)
    if P.op != "ite" or has_any(P, {k for u in unsolved if u is not c for k in u.keys()}):
        return None
    for g in (P.args[0],):
        for cond, strict in ((atom_bdd(g), True), (not_(atom_bdd(g)), True)):
            if restrict(P, cond) is not b or restrict(P, not_(cond)) is not ph:
                continue
            if g.op != "lt0" or g.args[0].op != "num":
                return None
            D = g.args[0]                   # cond: D < 0, or D >= 0
            mine = [(t, k) for t, k in D.args[0] if not has_any(mk("num", ((t, k),)), {c.key})]
            own = terms._mk_num(dict(mine))
            other = sub(D, own)
            up = cond is atom_bdd(g)
            if add(subst(other, {c.key: b}), own) is not ZERO:
                return None
            # own(i) + other(ph) = own(i) - own(ph)
            if has_any(other, {ba}):
                return None
            return at_index(I, own, up, ba, count)
    return None


def at_index(I, own, up, ba, count):
    def at(k):
        if k is not count:
            raise _NoPartial()
        some = lift(lambda n: not_(eq0(n)), count)
        j = argbest(I, own, not up, up, ba, count)
        return j if some is TRUE else ite(some, j, ZERO)
    return at


def _raise():
    raise _NoPartial()


def rewrap_l(c, v):
    return lift(lambda u: rewrap(c, u), v)


def concat(a, cm):
    segs = list(a.args) if a.op == "seq" else [mk("splice", TRUE, a)]
    return seq(*(segs + ([cm] if cm is not None else [])))


def comp_upto(I, b, ba, count, k, new):
    if k is count:
        return comp(I, b, count, TRUE, new)
    b2 = fresh_binder(k)
    segs = [I.instantiate(s, ba, b2) for s in new]
    return comp(I, b2, k, TRUE, segs)


def exists_upto(I, b, ba, count, k, cond):
    if k is count:
        return exists_at(I, b, count, cond)
    b2 = fresh_binder(k)
    return exists_at(I, b2, k, subst(cond, {ba: b2}))


def dedup(I, c, new, b, ba, count):
    """Appending an element unless it is already there."""
    if len(new) != 1 or new[0].op != "seg":
        return None
    g, e = new[0].args
    if c.has(e):
        return None
    ins = [a for a in _atoms(g) if c.has(a)]
    if len(ins) != 1 or ins[0].op != "batom" or ins[0].args[0] not in ("in", "unknown"):
        return None
    a = ins[0]
    if restrict(g, atom_bdd(a)) is not FALSE:
        return None
    g2 = restrict(g, not_(atom_bdd(a)))
    if c.has(g2):
        return None
    return seq(mk("splice", TRUE, mk("x", "seq", "dedup", seq(comp(I, b, count, TRUE, [seg(e, g2)])))))


def sumto(I, D, b, ba, count, k):
    """Sum of D over 0 <= b < k."""
    if ba not in all_atoms(D):
        return lift_num(mul, D, k)
    if D.op != "num":
        kd = "int" if all(is_int(l) for l in leafset(D)) else "real"
        D2 = [x for x in leaves(D) if x[1] is not ZERO]
        t = comp_upto(I, b, ba, count, k, [seg(D)])
        return atom(mk("sum", t, kd))
    const_, lin, rest = ZERO, ZERO, ZERO
    for m, co in D.args[0]:
        t = terms._mk_num({m: co})
        if ba not in all_atoms(t):
            const_ = add(const_, t)
        elif dict(m).get(ba) == 1 and ba not in all_atoms(terms._mk_num({tuple(x for x in m if x[0] is not ba): co})):
            lin = add(lin, terms._mk_num({tuple(x for x in m if x[0] is not ba): co}))
        else:
            rest = add(rest, t)
    r = add(mul(const_, k), mul(lin, div(mul(k, sub(k, ONE)), num(2))))
    if rest is not ZERO:
        for m, co in rest.args[0]:
            inner = tuple(x for x in m if ba in all_atoms(x[0]))
            outer = tuple(x for x in m if ba not in all_atoms(x[0]))
            e = terms._mk_num({inner: Fraction(1)})
            st = None
            if len(inner) == 1 and inner[0][1] == 1 and inner[0][0].op == "elem" and inner[0][0].args[1] is b and \
                    ba not in all_atoms(inner[0][0].args[0]):
                st = inner[0][0].args[0]
            if st is None:
                st = seq(comp(I, b, count, TRUE, [seg(e)]))
            r = lift_num(add, r, lift_num(mul, terms._mk_num({outer: co}), I.models.psum(I, st, k)))
    return r


# ------------------------------------------------------------ while
def run_while(I, s, fr):
    lp = {"break": FALSE, "cont": FALSE}
    fr.loops.append(lp)
    exited = FALSE
    for n in range(65):
        if I.G is FALSE:
            break
        j = Journal(I, fr)
        c = restrict(I.truth(I.ev(s.test, fr)), I.G)
        if c is FALSE or I.G is FALSE:
            j.close()
            break
        if c is not TRUE or n == 64:
            j.restore()
            symbolic_while(I, s, fr, lp)
            break
        j.close()
        I.block(s.body, fr)
        I.G = or_(I.G, lp["cont"])
        lp["cont"] = FALSE
    fr.loops.pop()
    if s.orelse:
        I.block(s.orelse, fr)
    I.G = or_(I.G, lp["break"])


def symbolic_while(I, s, fr, lp):
    G0 = I.G

    def once(ba):
        I.loops.append((ba, None))
        c = I.truth(I.ev(s.test, fr))
        Gt = I.G
        I.G = and_(Gt, c)
        I.block(s.body, fr)
        I.G = or_(I.G, lp["cont"])
        lp["cont"] = FALSE
        I.loops.pop()
        return c
    _n[0] += 1
    ba = mk("bound", "w%d" % _n[0], None)
    j = Journal(I, fr)
    once(ba)
    found = j.diff()
    j.restore()
    carries = [Carry(*x, G0) for x in found]
    facts = {}
    # one pass to find the recurrences, one to use the invariants found
    for attempt in range(4):
        j = Journal(I, fr)
        nid0 = I.nid
        fr.ret, fr.retg = NONE, FALSE
        pb = lp["break"]
        lp["break"] = FALSE
        for c in carries:
            if c.key is None:
                c.placeholder(I, None)
            if c.shape != "undef":
                put(I, fr, c, c.ph)
        cond = restrict(once(ba), G0)
        known = {(c.kind, c.name, c.oid) for c in carries}
        extra = [x for x in j.diff() if x[:3] not in known]
        for c in carries:
            c.post = get(I, fr, c)
        rv, gr, gb = fr.ret, fr.retg, lp["break"]
        exs = I.excs[-1][j.ex:]
        stop = or_(gr, gb, *[g for g, _ in exs])
        go = and_(G0, cond, not_(stop))
        if extra:
            j.restore()
            carries += [Carry(*x, G0) for x in extra]
            continue
        # a counting loop?
        if attempt == 0 and not gb and False:
            pass
        k = counter(I, carries, cond, go)
        if k is not None and attempt <= 1:
            c, n = k
            j.restore()
            init = c.init

            def body(b):
                t = I.truth(I.ev(s.test, fr))
                lp["break"] = or_(lp["break"], and_(I.G, not_(t)))
                I.G = and_(I.G, t)
                I.block(s.body, fr)
                I.G = or_(I.G, lp["cont"])
                lp["cont"] = FALSE
            run_loop(I, fr, n, body, {c.name: (lambda b: add(init, b))})
            return
        new = invariants(carries, cond, go, facts)
        if not new or attempt == 3:
            j.close()
            break
        j.restore()
        for c, f in new.items():
            facts[c] = f
            terms.FACTS[c.key] = f
            terms.clear_caches()
    del I.excs[-1][j.ex:]
    fr.ret, fr.retg = j.ret, j.retg
    lp["break"] = pb
    live = [c for c in carries if c.shape != "undef"]
    changed = [c for c in live if restrict(c.post, go) is not c.ph]
    sig = mk("loopsig", canon(changed, None, cond),
             *[mk("tup", "", c.init, canon(changed, None, restrict(c.post, go))) for c in changed])
    outs = {}
    for k, c in enumerate(changed):
        v = opaque(I, c, sig, k, None)
        outs[c] = v
        if c in facts and v.op == "num":
            terms.FACTS[single_atom(v)] = facts[c]
    terms.clear_caches()
    m = {c.key: outs[c] for c in changed}
    I.whiles.append({"loc": "%s:%d" % (fr.module.relpath, s.lineno), "cond": cond, "sig": sig,
                     "func": I.calls[-1].qual() if I.calls else None,
                     "carries": [(c.name, c.key, c.init, restrict(c.post, go), outs[c]) for c in changed],
                     "exit": not_(subst(cond, m)), "stop": subst(restrict(stop, and_(G0, cond)), {})})
    I.G = G0
    xg = {}
    for g, e in exs:
        xg[e] = or_(xg.get(e, FALSE), g)
    for n, (e, g) in enumerate(xg.items()):
        q = batom("loopraise", sig, num(n), canon(changed, None, restrict(g, and_(G0, cond))))
        I.excs[-1].append((and_(G0, q), e))
        I.G = and_(I.G, not_(q))
    if gr is not FALSE:
        q = batom("loopreturn", sig)
        v = mk("x", None, "loopret", sig, canon(changed, None, I.freeze(rv)))
        g = and_(I.G, q)
        fr.ret = ite(g, v, fr.ret) if fr.retg is not FALSE else v
        fr.retg = or_(fr.retg, g)
        I.G = and_(I.G, not_(q))
    for c in carries:
        if c in outs:
            v = rewrap(c, outs[c])
        elif c.shape == "undef":
            v = mk("x", None, "loopout", sig, const(c.name))
        else:
            v = c.full
        put(I, fr, c, ite(G0, v, c.full) if c.full is not None and G0 is not TRUE else v)
    for oid in range(nid0 + 1, I.nid + 1):
        o = I.heap.get(oid)
        if o is not None:
            for k, v in list(o.fields.items()):
                if has_any(v, set(m)):
                    o.fields[k] = subst(v, m)


def counter(I, carries, cond, go):
    """(carry, bound on the number of iterations) of a loop that adds one to
    a variable and goes on only while the variable is below something the
    loop does not change."""
    keys = {x.key for x in carries if x.key is not None}
    for c in carries:
        if c.shape != "num" or c.kind != "env" or c.init.op != "num" or \
                not sub_is(restrict(c.post, go), c.ph, ONE):
            continue
        for a in _atoms(cond):
            if a.op != "lt0" or not c.has(a):
                continue
            p, t = a.args[0], atom_bdd(a)
            if and_(cond, not_(t)) is FALSE:
                bound = neg(p)            # p < 0: p = ph - N
            elif and_(cond, t) is FALSE:
                bound = add(p, ONE)       # not (p < 0), p = N - 1 - ph
            else:
                continue
            n = add(bound, c.ph)
            if keys.isdisjoint(all_atoms(n)):
                return c, terms.relu(sub(n, c.init))
    return None


def sub_is(a, b, d):
    return a is not None and a.op == "num" and b.op == "num" and sub(a, b) is d


def invariants(carries, cond, go, facts):
    new = {}
    for c in carries:
        if c.shape != "num" or c.init is None or c.init.op != "num":
            continue
        P = restrict(c.post, go)
        if P is c.ph:
            continue
        ls = leafset(P)
        if any(x.op != "num" for x in ls):
            continue
        lo, hi = facts.get(c, (None, None))
        if lo is None:
            if all(prove_ge0(sub(x, c.ph)) for x in ls):
                lo = c.init
            elif prove_ge0(c.init) and all(restrict(lt0(x), go) is FALSE for x in ls):
                lo = ZERO
        if hi is None:
            if all(prove_ge0(sub(c.ph, x)) for x in ls):
                hi = c.init
            else:
                for a in _atoms(cond):
                    if a.op == "lt0":
                        N = sub(c.ph, a.args[0])
                        for N in (N, add(a.args[0], add(c.ph, ONE))):
                            if c.key not in all_atoms(N) and not any(x.key in all_atoms(N) for x in carries
                                                                     if x.key is not None):
                                if prove_ge0(sub(N, c.init)) and all(restrict(lt(N, x), go) is FALSE for x in ls):
                                    hi = N
        if (lo, hi) != facts.get(c, (None, None)):
            new[c] = (lo, hi)
    return new
