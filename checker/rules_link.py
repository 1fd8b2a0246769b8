"""C29 registries and interfaces, C35 linkage."""
import ast
import builtins
import importlib
import re
import symtable

import terms
from terms import (mk, num, ONE, ZERO, TRUE, FALSE, NONE, const, is_const, cval, T)
from interp import exc_name, AnalysisError, ClassVal, FuncVal, PropVal, RegistryVal, ExtClass, walk_own
from worlds import World, MAPS, BUILDERS, getitem, index_in, coord, py
import worlds
import rules_state as rs
import rules_misc as ro
from rules_hash import maps, VERSIONS
from subjects import isolated, subclasses

# what a broken reference or call raises
LINK = ("AttributeError", "NameError", "UnboundLocalError", "ImportError", "ModuleNotFoundError", "TypeError",
        "NotImplementedError")
# problems that the analysis notes and that are wrong on every path
DEFINITE = re.compile(
    "undefined name|missing module|cannot import name|__all__ names missing|has no attribute|has no field|"
    "missing field|too many arguments|takes no arguments|is not callable|has no setter|unexpected keyword|"
    "missing argument|has no argument|has no name|called with \\d+ values|bad register|is registered twice|"
    "needs doc|needs argument|not all arguments converted|not enough arguments|needs more arguments|"
    "no registered item|not subscriptable")
STDLIB = ("math", "struct", "hashlib", "abc", "numbers", "itertools", "functools", "operator", "collections", "warnings",
          "logging", "os", "sys", "typing", "dataclasses", "bisect", "copy", "re", "types", "contextlib", "enum",
          "string", "statistics", "fractions", "collections.abc", "time", "inspect", "textwrap", "pickle")
# attributes that instances get from the library classes they derive from
FROM_LIBRARY = {
    "DimensionPacker": {"fixed", "dimensions", "pack", "unpack", "maxBits", "makeConfigField", "_pack"},
    "Config": None,
}


def classes(I):
    seen = []
    for m in I.modules.values():
        for v in m.env.values():
            if isinstance(v, T) and v.op == "py" and isinstance(v.args[0], ClassVal) and v.args[0] not in seen \
                    and v.args[0].module.relpath != "<spec>":
                seen.append(v.args[0])
    return seen


def subs(cs, c):
    return [k for k in cs if c in k.mro()]


# ------------------------------------------------------------------ names
def names(ck, m):
    """Every name that a function refers to is bound somewhere it can see."""
    top = symtable.symtable(m.src, m.path, "exec")
    known = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    known |= set(m.env)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            known |= set(n.names)
        if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) and not n.level:
            return None         # names from outside
    special = {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__builtins__", "__class__"}
    bad, count = [], 0

    def go(t, path):
        nonlocal count
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            count += 1
            n = s.get_name()
            free = s.is_global() if t.get_type() != "module" else True
            if free and n not in known and n not in special and not hasattr(builtins, n):
                bad.append((path or "module", n))
        for c in t.get_children():
            go(c, (path + "." if path else "") + c.get_name())
    go(top, "")
    return bad, count


def lineno(m, name):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and n.id == name:
            return n.lineno
    return 0


# ------------------------------------------------------------------ signatures
def binds(f, call, bound):
    """Why a call cannot bind to the parameters of f, or None."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        pos = pos[1:]
    nd = len(a.defaults)
    need = set(pos[:len(pos) - nd] if nd else pos)
    kwo = [x.arg for x in a.kwonlyargs]
    needk = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [x for x in call.args if not isinstance(x, ast.Starred)]
    if not star and len(given) > len(pos) and a.vararg is None:
        return "takes %d positional arguments, is called with %d" % (len(pos), len(given))
    posonly = {x.arg for x in a.posonlyargs}
    for k in call.keywords:
        if k.arg is not None and a.kwarg is None and (k.arg not in pos + kwo or k.arg in posonly):
            return "has no parameter %r" % k.arg
        if k.arg is not None and not star and k.arg in pos[:len(given)] and k.arg not in posonly:
            return "gets %r twice" % k.arg
    if not star and not dstar:
        have = set(pos[:len(given)]) | {k.arg for k in call.keywords}
        miss = [p for p in pos if p in need and p not in have] + [p for p in kwo if p in needk and p not in have]
        if miss:
            return "is called without %r" % miss[0]
    return None


def plain(f):
    """Is the function called as it is written (no decorator that changes it)?"""
    ds = getattr(f.node, "decorator_list", None)
    if ds is None:
        return False
    return all(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property") or
               isinstance(d, ast.Attribute) and d.attr in ("abstractmethod",) for d in ds)


def init_of(c):
    """(function, bound) that receives the arguments of C(...), or None."""
    if c.namedtuple or c.dataclass or c.isconfig():
        return None
    if any(isinstance(k, ClassVal) and k.node.keywords for k in c.mro()) and any(
            kw.arg == "metaclass" and not (isinstance(kw.value, ast.Attribute) and kw.value.attr == "ABCMeta" or
                                           isinstance(kw.value, ast.Name) and kw.value.id == "ABCMeta")
            for k in c.mro() if isinstance(k, ClassVal) for kw in k.node.keywords):
        return None
    if c.lookup("__new__")[0] is not None:
        return None
    v, o = c.lookup("__init__")
    if v is None or v.op != "py" or not isinstance(v.args[0], FuncVal):
        return None
    # an external base in front
    for k in c.mro():
        if k is o:
            break
        if isinstance(k, ExtClass):
            return None
    return v.args[0]


class Calls(ast.NodeVisitor):
    """Checks every call and attribute of one module that can be resolved
    from its syntax."""

    def __init__(self, ck, m, cs):
        self.ck, self.I, self.m, self.cs = ck, ck.I, m, cs
        self.cls = []
        self.fn = []
        self.calls = self.attrs = 0
        self.bad = []
        self.local = []

    def qual(self):
        return ".".join([c.name for c in self.cls] + [f.name for f in self.fn]) or "module"

    def visit_ClassDef(self, n):
        v = self.m.env.get(n.name)
        c = v.args[0] if isinstance(v, T) and v.op == "py" and isinstance(v.args[0], ClassVal) and \
            v.args[0].node is n else None
        if self.fn or self.cls or c is None:
            return
        self.cls.append(c)
        for d in n.body:
            self.visit(d)
        self.cls.pop()

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        bound = {a.arg for x in ast.walk(n) if isinstance(x, ast.arguments)
                 for a in x.posonlyargs + x.args + x.kwonlyargs + [y for y in (x.vararg, x.kwarg) if y]}
        bound |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        bound |= {(a.asname or a.name).split(".")[0] for x in ast.walk(n)
                  if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        bound |= {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not n}
        bound |= {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
        self.local.append(bound)
        self.generic_visit(n)
        self.local.pop()
        self.fn.pop()

    def kind(self):
        """instance, class or None: what the first parameter is."""
        if not self.cls or len(self.fn) != 1:
            return None, None
        f = self.fn[0]
        ds = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
        a = f.args.posonlyargs + f.args.args
        if "staticmethod" in ds or not a:
            return None, None
        # assigned again?
        if any(isinstance(x, ast.Name) and x.id == a[0].arg and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
            return None, None
        return ("class" if "classmethod" in ds or f.name in ("__new__", "__init_subclass__") else "instance"), a[0].arg

    def module_value(self, name):
        if any(name in s for s in self.local):
            return None
        v = self.m.env.get(name)
        return v if isinstance(v, T) else None

    def note(self, n, text):
        self.bad.append((self.qual(), n.lineno, text))

    def targets(self, fn):
        """[(what, function, bound)] for the callee expression, or None."""
        if isinstance(fn, ast.Name):
            v = self.module_value(fn.id)
            if v is None or v.op != "py":
                return None
            o = v.args[0]
            if isinstance(o, ClassVal) and o.module.relpath != "<spec>":
                f = init_of(o)
                return [(o.name + "()", f, True)] if f is not None and plain(f) else None
            if isinstance(o, FuncVal) and plain(o):
                return [(o.qual(), o, False)]
            return None
        if not isinstance(fn, ast.Attribute):
            return None
        k, me = self.kind()
        v = fn.value
        if k and isinstance(v, ast.Name) and v.id == me:
            out = []
            for d in subs(self.cs, self.cls[-1]):
                w, o = d.lookup(fn.attr)
                if w is None or w.op != "py" or not isinstance(w.args[0], FuncVal) or not plain(w.args[0]):
                    return None
                f = w.args[0]
                if f.name != fn.attr:
                    continue
                out.append(("%s.%s" % (o.name, fn.attr), f, not f.static and (k == "instance" or f.classm)))
            return out
        if k and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            out = []
            for d in subs(self.cs, self.cls[-1]):
                w, o = d.lookup(fn.attr, after=self.cls[-1])
                if w is None or w.op != "py" or not isinstance(w.args[0], FuncVal) or not plain(w.args[0]):
                    return None
                mro = d.mro()
                if any(isinstance(x, ExtClass) for x in mro[mro.index(self.cls[-1]):mro.index(o)]):
                    return None
                f = w.args[0]
                out.append(("%s.%s" % (o.name, fn.attr), f, not f.static))
            return out
        if isinstance(v, ast.Name):
            w = self.module_value(v.id)
            if w is not None and w.op == "mod" and w.args[0] in self.I.modules:
                x = self.I.modules[w.args[0]].env.get(fn.attr)
                if isinstance(x, T) and x.op == "py":
                    o = x.args[0]
                    if isinstance(o, ClassVal):
                        f = init_of(o)
                        return [(o.name + "()", f, True)] if f is not None and plain(f) else None
                    if isinstance(o, FuncVal) and plain(o):
                        return [(o.qual(), o, False)]
        return None

    def visit_Call(self, n):
        ts = self.targets(n.func)
        if ts:
            self.calls += 1
            for what, f, bound in ts:
                why = binds(f, n, bound)
                if why:
                    self.note(n, "%s %s" % (what, why))
                    break
        self.generic_visit(n)

    def visit_Attribute(self, n):
        k, me = self.kind()
        v = n.value
        if k and isinstance(v, ast.Name) and v.id == me and isinstance(n.ctx, ast.Load):
            ks = known_attrs(self.I, self.cs, self.cls[-1])
            if ks is not None:
                self.attrs += 1
                if n.attr not in ks and not n.attr.startswith("__"):
                    self.note(n, "%s has no attribute %r" % (self.cls[-1].name, n.attr))
        elif isinstance(v, ast.Name):
            w = self.module_value(v.id)
            if w is not None and w.op == "mod" and w.args[0] in self.I.modules:
                self.attrs += 1
                m = self.I.modules[w.args[0]]
                if n.attr not in m.env and w.args[0] + "." + n.attr not in self.I.modules and \
                        not n.attr.startswith("__"):
                    self.note(n, "module %s has no attribute %r" % (w.args[0], n.attr))
            elif w is not None and w.op == "ext" and w.args[0] in STDLIB:
                self.attrs += 1
                if not hasattr(importlib.import_module(w.args[0]), n.attr):
                    self.note(n, "module %s has no attribute %r" % (w.args[0], n.attr))
        self.generic_visit(n)


_attrs = {}


def known_attrs(I, cs, c):
    """Attributes that instances of c may have; None if that is not known."""
    key = id(c)
    if key in _attrs:
        return _attrs[key]
    out = set()
    ok = True
    for d in subs(cs, c):
        for k in d.mro():
            if isinstance(k, ClassVal):
                out |= set(k.attrs)
                if k.namedtuple or k.dataclass:
                    out |= set(getattr(k, "fields", ())) | {
                        x.target.id for x in k.node.body if isinstance(x, ast.AnnAssign) and isinstance(
                            x.target, ast.Name)}
                if k.namedtuple:
                    ok = False
                if "__getattr__" in k.attrs or "__getattribute__" in k.attrs:
                    ok = False
                for x in ast.walk(k.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        out.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                        ok = False
                    if isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__setattr__"):
                        ok = False
            else:
                n = k.name.split(".")[-1]
                if n in ("object", "ABC"):
                    continue
                if FROM_LIBRARY.get(n) is not None:
                    out |= FROM_LIBRARY[n]
                else:
                    ok = False
    # set from outside the class
    for m in I.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
    _attrs[key] = out if ok else None
    return _attrs[key]


# ------------------------------------------------------------------ C35
def c35(ck):
    I = ck.interp()
    cs = classes(I)
    _attrs.clear()
    for m in list(I.modules.values()):
        if m.relpath == "<spec>":
            continue
        r = names(ck, m)
        rule = "every name is defined"
        if r is None:
            ck.undecided(rule, m.relpath, "imports everything of an unknown module")
        else:
            ck.add(rule, m.relpath, "discharged" if not r[0] else "violated",
                   "; ".join("%s in %s (line %d)" % (n, p, lineno(m, n)) for p, n in r[0][:4]))
        v = Calls(ck, m, cs)
        v.visit(m.tree)
        by = {}
        for q, line, text in v.bad:
            by.setdefault(q, []).append("line %d: %s" % (line, text))
        for q, t in by.items():
            ck.add("every reference and call fits", "%s: %s" % (m.relpath, q), "violated", "; ".join(t[:3]))
        ck.add("every reference and call fits", "%s (%d calls, %d attributes resolved)" % (m.relpath, v.calls, v.attrs),
               "discharged")
        allv = m.env.get("__all__")
        if allv is not None:
            st = I.seqterm(allv)
            it = terms.seq_items(st) if st is not None else None
            if it is None:
                ck.undecided("everything exported exists", m.relpath, "__all__ is not a list of names")
            else:
                miss = [cval(x) for x in it if is_const(x) and cval(x) not in m.env]
                ck.add("everything exported exists", m.relpath, "violated" if miss else "discharged",
                       "__all__ has %s" % miss)
    # what is used together works together
    rs.each_scene(ck, c35_scene)
    for kind in MAPS:
        for b in BUILDERS:
            ck.guard("every operation is well linked", "%s/%s register" % (kind, b), c35_register, ck, kind, b)
    for loc, msg in I.problems:
        if DEFINITE.search(msg) and "<spec>" not in loc:
            ck.add("every operation is well linked", "python/lsst/skymap/" + loc if not loc.startswith("python") else loc,
                   "violated", msg)


def c35_register(ck, kind, b):
    """Registration, of tracts as they are."""
    I = ck.I
    snap = I.snapshot()
    try:
        tag = "reg" + kind + b
        w = World(I, kind, b, prefix=tag + ".")
        sc = rs.Scene(ck, w.name(), tag)
        sc.stub = getitem(I, w.map, index_in("i." + tag, w.len())).value
        sc.world = w
        rs.stubs(I, sc)
        e = I.spec(ro.REPO, "repository")
        f = I.alloc("dict", d=terms.seq(*[terms.seg(mk("tup", "", const(k), FALSE)) for k in ro.KINDS]))
        repo = I.run(e["make"], [FALSE, TRUE, f, mk("x", None, "butler.dimensions")]).value
        r = I.method(w.map, "register", terms.sym("name." + tag), repo)
        ck.no_raise("every operation is well linked", "%s [%s]" % (ck.where(w.cls, "register"), w.name()), r, names=LINK)
    finally:
        I.restore(snap, True)


def c35_scene(ck, s):
    I = ck.I
    for q, c, n, f in list(s.queries()):
        where = s.where(q, c, n)
        snap = I.snapshot()
        try:
            if n == "logSkyMapInfo":
                # reads the tracts' own accessors
                a = s.world.cls.attrs
                for k in ("__getitem__", "__iter__"):
                    a.pop(k, None)
                    if k in s.own:
                        a[k] = s.own[k]
                t = getitem(I, s.world.map, index_in("i." + s.tag, s.world.len())).value
                s.stub = t
                rs.stubs(I, s)
            r = f()
            ck.no_raise("every operation is well linked", where, r, names=LINK)
        finally:
            I.restore(snap, True)


# ------------------------------------------------------------------ C29
def registry(I, name):
    for m in I.modules.values():
        v = m.env.get(name)
        if isinstance(v, T) and v.op == "py" and isinstance(v.args[0], RegistryVal):
            return v.args[0]
    return None


def class_of(v):
    return v.args[0] if isinstance(v, T) and v.op == "py" and isinstance(v.args[0], ClassVal) else None


def abstract(c):
    """Operations that the class leaves open."""
    out = []
    for k in c.mro():
        if isinstance(k, ClassVal):
            for n, v in k.attrs.items():
                f = v.args[0] if isinstance(v, T) and v.op == "py" else None
                f = f.fget.args[0] if isinstance(f, PropVal) and isinstance(f.fget, T) and f.fget.op == "py" else f
                if isinstance(f, FuncVal) and c.lookup(n)[0] is v and any(
                        isinstance(d, ast.Attribute) and d.attr.startswith("abstract") or
                        isinstance(d, ast.Name) and d.id.startswith("abstract")
                        for d in getattr(f.node, "decorator_list", [])):
                    out.append(n)
    return out


def keyword_calls(I, name):
    """Keywords that the package uses in calls of .name(...)."""
    out = set()
    for m in I.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name:
                out |= {k.arg for k in n.keywords if k.arg}
    return out


def accepts(I, f, base):
    """Why f cannot stand in for the method `base`, or None."""
    a, b = f.node.args, base.node.args
    pa, pb = a.posonlyargs + a.args, b.posonlyargs + b.args
    if a.vararg is None and len(pa) < len(pb):
        return "takes %d parameters, the method it replaces takes %d" % (len(pa), len(pb))
    if b.vararg is not None and a.vararg is None:
        return "does not take further arguments"
    na, nb = len(pa) - len(a.defaults), len(pb) - len(b.defaults)
    if na > nb:
        return "needs %r, which the method it replaces does not" % pa[nb].arg
    names = {x.arg for x in a.args + a.kwonlyargs}
    opt = {x.arg for x, d in zip(b.kwonlyargs, b.kw_defaults)}
    need = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    if need - {x.arg for x in b.kwonlyargs}:
        return "needs keyword %r" % sorted(need)[0]
    for k in keyword_calls(I, base.name) & ({x.arg for x in b.args} | opt):
        if k not in names and a.kwarg is None:
            return "has no parameter %r, with which it is called" % k
    return None


def c29(ck):
    I = ck.interp()
    cs = classes(I)
    rule = "registered under its name"
    for rname, want, base, conf in (
            ("skyMapRegistry", MAPS, "BaseSkyMap", "BaseSkyMapConfig"),
            ("tractBuilderRegistry", {"legacy": "LegacyTractBuilder", "cells": "CellTractBuilder"}, "BaseTractBuilder",
             "BaseTractBuilderConfig")):
        reg = registry(I, rname)
        if reg is None:
            ck.add(rule, rname, "violated", "there is no registry " + rname)
            continue
        b, bc = I.cls(base), I.cls(conf)
        for name, cname in want.items():
            v = reg.items.get(name)
            w = "%s %r" % (reg.loc, name)
            if v is None:
                ck.add(rule, w, "violated", "nothing is registered under this name")
                continue
            t, cc = class_of(v[0]), class_of(v[1])
            if t is None or cc is None:
                ck.undecided(rule, w, "not a class")
                continue
            ck.ok(rule, w, t.name == cname, "%s is registered" % t.name)
            ck.ok("has a configuration class", w, bc in cc.mro(), "%s is no %s" % (cc.name, conf))
            own = I.getattr(mk("py", t), "ConfigClass", None)
            ck.ok("has a configuration class", w + " ConfigClass", class_of(own) is cc, "registered with %s, has %s" % (
                cc.name, getattr(class_of(own), "name", None)))
        targets = [class_of(v[0]) for v in reg.items.values()]
        for c in cs:
            if b in c.mro() and c is not b and len(subs(cs, c)) == 1 and not c.name.startswith("_") and not abstract(c) \
                    and c.name in I.modules.get("lsst.skymap", c.module).env:
                ck.ok(rule, "%s: %s" % (c.module.relpath, c.name), targets.count(c) == 1,
                      "registered %d times" % targets.count(c))
        for c in targets:
            if c is None:
                continue
            ab = abstract(c)
            ck.ok("implements the interface", "%s: %s" % (c.module.relpath, c.name), not ab, "does not define %s" % ab)
    # methods that replace others
    for c in cs:
        for n, v in c.attrs.items():
            f = v.args[0] if isinstance(v, T) and v.op == "py" else None
            if not isinstance(f, FuncVal) or n.startswith("__") or not plain(f):
                continue
            o, k = c.lookup(n, after=c)
            g = o.args[0] if isinstance(o, T) and o.op == "py" else None
            if isinstance(g, FuncVal) and plain(g):
                why = accepts(I, f, g)
                ck.ok("replaces a method by one with compatible arguments", "%s: %s.%s" % (c.module.relpath, c.name, n),
                      why is None and f.static == g.static and f.classm == g.classm, why or "is of another kind")
    # every combination can be built, and does what the shared code asks
    for kind in MAPS:
        for b in BUILDERS:
            if not buildable(ck, kind, b):
                continue
            for v in VERSIONS.get(kind, (None,)):
                w = ck.guard("operations", "%s/%s" % (kind, b), World, I, kind, b, v, prefix="%s%s." % (kind[:2], b[0]))
                if w is not None:
                    ck.guard("operations", w.name(), c29_map, ck, w)


def buildable(ck, kind, b):
    """Can a sky map of this kind be built from its configuration class?"""
    I = ck.I
    snap = I.snapshot()
    try:
        c = I.cls(MAPS[kind])
        cc = class_of(I.getattr(mk("py", c), "ConfigClass", None))
        config = worlds.sym_config(I, cc, "build.", b, worlds.usual("build."))
        r = I.run(py(c), [config])
        ck.no_raise("can be built from its configuration class", "%s: %s [%s]" % (c.module.relpath, c.name, b), r,
                    names=LINK)
        return r.guard is not FALSE
    except (AnalysisError, KeyError) as e:
        ck.undecided("can be built from its configuration class", "%s/%s" % (kind, b), str(e))
        return False
    finally:
        I.restore(snap, True)


TRACT_OPS = ("getNumPatches", "getBBox", "getCtrCoord", "getId", "getPatchBorder", "getPatchInnerDimensions",
             "getTractOverlap", "getVertexList", "getWcs", "getInnerSkyPolygon", "getOuterSkyPolygon")
PATCH_OPS = ("getIndex", "getSequentialIndex", "getInnerBBox", "getOuterBBox", "getInnerSkyPolygon",
             "getOuterSkyPolygon", "getWcs", "getNumCells", "getCellInnerDimensions", "getCellBorder")


def c29_map(ck, w):
    I = ck.I
    rule = "the shared operations work"
    where = "%s: %s [%s]" % (w.cls.module.relpath, w.cls.name, w.name())
    tag = "c29" + w.name()

    def go(label, f, names=LINK):
        snap = I.snapshot()
        try:
            r = f()
            ck.no_raise(rule, "%s %s" % (where, label), r, names=names)
            return r
        finally:
            if label not in ("map[i]", "getPatchInfo", "tractBuilder.apply()"):
                I.restore(snap, True)
    # through the registry field: the tract builder that its name selects
    f = I.obj(w.config).fields["tractBuilder"]
    r = go("tractBuilder.apply()", lambda: I.method(f, "apply"))
    if r.guard is not FALSE and r.value.op == "obj":
        want = registry(I, "tractBuilderRegistry").items[w.builder][0]
        ck.ok("the configured tract builder is used", where, I.isobj(r.value) and class_of(want) is I.obj(r.value).cls,
              "another class is built")
    n = w.len()
    i = index_in("i." + tag, n)
    go("getSha1", lambda: I.method(w.map, "getSha1"))
    go("reduce", lambda: I.method(w.map, "__reduce__"))
    c = coord("c." + tag)
    if w.kind in ("rings", "healpix"):
        # (that of the others is the base class's; see C09)
        go("findTract", lambda: I.method(w.map, "findTract", c))
    t = go("map[i]", lambda: getitem(I, w.map, i))
    if t.guard is FALSE:
        return
    t = t.value
    for q in TRACT_OPS:
        go("tract." + q, lambda: I.method(t, q))
    p = go("getPatchInfo", lambda: I.method(t, "getPatchInfo", mk("tup", "Index2D", ZERO, ZERO)))
    if p.guard is FALSE or p.value.op != "obj":
        return
    p = p.value
    for q in PATCH_OPS:
        go("patch." + q, lambda: I.method(p, q))
    if w.builder == "cells":
        for q, a in (("getCellInfo", mk("tup", "Index2D", ZERO, ZERO)), ("getCellIndexPair", ZERO)):
            go("patch." + q, lambda: I.method(p, q, a))
