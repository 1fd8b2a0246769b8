"""Value-flow abstract interpreter for the Python subset used by the package.

Every function is evaluated once over symbolic values.  Branches are not
enumerated: statements are evaluated under a guard (a decision diagram over
canonical comparison atoms) and assignments merge values, so the result of a
function is one guarded value.  Loops over a bounded number of elements are
unrolled; others are summarised (comprehension, sum, hull, or an opaque but
canonical fold).  Calls inside the package are followed through the class
hierarchy; calls outside it go to models or become uninterpreted functions.
"""
import ast
import builtins
import os
from fractions import Fraction

from terms import (T, mk, const, TRUE, FALSE, NONE, is_const, cval, boolc, unk, num, is_num, num_const, ZERO, ONE,
                   sym, atom, is_int, add, sub, mul, div, neg, power, floor_, mod_, ite, not_, and_, or_, lt, le,
                   eq0, same, batom, seq, seg, seq_items, fresh_binder, mk_comp, subst, single_atom, restrict,
                   lift, lift_num, show, leaves, leafset, all_atoms, max_, min_, abs_, comp_binder, trunc_,
                   comp_height, atom_bdd, lift_app, REBUILD)
import terms

PKG = "lsst.skymap"
MAXUNROLL = 8


class AnalysisError(Exception):
    """The analysis itself cannot proceed (an anchor is gone)."""


class FuncVal:
    def __init__(self, node, module, name, closure=None, owner=None):
        self.node, self.module, self.name, self.closure, self.owner = node, module, name, closure, owner
        self.defaults = []
        self.kwdefaults = {}
        self.isgen = (not isinstance(node, ast.Lambda)) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        self.static = self.classm = self.abstract = False
        self.memo = None       # (arguments, condition, value) of a cached function

    def loc(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)

    def qual(self):
        return (self.owner.name + "." if self.owner else "") + self.name


def walk_own(fn):
    """Nodes of a function body, excluding nested functions."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                st.append(c)


class ClassVal:
    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.attrs = {}
        self.namedtuple = None
        self.dataclass = False

    def mro(self):
        out = [self]
        seqs = [b.mro() if isinstance(b, ClassVal) else [b] for b in self.bases] + [list(self.bases)]
        seqs = [list(s) for s in seqs]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    c = s[0]
                    out.append(c)
                    for t in seqs:
                        if t and t[0] is c:
                            t.pop(0)
                    break
            else:
                break
        return out

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for c in m:
            if isinstance(c, ClassVal) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def extbases(self):
        return [c.name for c in self.mro() if isinstance(c, ExtClass)]

    def isconfig(self):
        return any(n.endswith("pex.config.Config") for n in self.extbases())

    def loc(self):
        return "%s:%d" % (self.module.relpath, self.node.lineno)


class ExtClass:
    """A class outside the package, used as a base."""
    _all = {}

    def __new__(cls, name):
        if name not in cls._all:
            o = object.__new__(cls)
            o.name = name
            cls._all[name] = o
        return cls._all[name]


class PropVal:
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


class FieldVal:
    """A pex_config field declaration."""
    def __init__(self, kind, kw, loc):
        self.kind, self.kw, self.loc = kind, kw, loc


class RegistryVal:
    def __init__(self, loc):
        self.items = {}
        self.loc = loc


class Module:
    def __init__(self, name, path, relpath):
        self.name, self.path, self.relpath = name, path, relpath
        self.src = open(path).read()
        self.tree = ast.parse(self.src, path)
        self.env = {}
        self.done = False
        self.ispkg = path.endswith("__init__.py")


class SpecModule(Module):
    """A specification written as Python functions, run by the analysis in
    the same way as the package."""

    def __init__(self, src, name):
        self.name, self.path, self.relpath = name, "<spec>", "<spec>"
        self.src = src
        self.tree = ast.parse(src, name)
        self.env = {}
        self.done = False
        self.ispkg = False


class HObj:
    __slots__ = ("cls", "fields", "loops", "id", "site", "born")

    def __init__(self, id, cls, loops, site, born=TRUE):
        self.id, self.cls, self.loops, self.site = id, cls, loops, site
        self.fields = {}
        self.born = born        # the condition under which it exists

    def copy(self):
        o = HObj(self.id, self.cls, self.loops, self.site, self.born)
        o.fields = dict(self.fields)
        return o


class Frame:
    def __init__(self, func, module, closure=None):
        self.func, self.module, self.closure = func, module, closure
        self.env = {}
        self.ret = NONE
        self.retg = FALSE
        self.loops = []
        self.yields = None
        self.cls = None
        self.globals = set()


class Event:
    __slots__ = ("guard", "loops", "ctx", "name", "args", "kwargs", "loc", "result", "func")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))

    def __repr__(self):
        return "Event(%s %s %s if %s in %s ctx %s)" % (self.name, self.args, self.kwargs, self.guard, self.loops,
                                                       self.ctx)


class Result:
    def __init__(self, value, guard, excs):
        self.value, self.guard, self.excs = value, guard, excs

    def raised(self, *names):
        """Guard under which one of the named exceptions (or any) is raised."""
        g = FALSE
        for eg, e in self.excs:
            if not names or exc_name(e) in names:
                g = or_(g, eg)
        return g


def exc_name(e):
    c = e.args[0]
    if isinstance(c, T) and c.op == "py":
        return c.args[0].name
    return str(c).split(".")[-1] if not str(c).startswith("lsst.") else str(c)


def py(o):
    return mk("py", o)


UNDEF = mk("undef")

EXT_EXC_PARENTS = {
    "lsst.pex.exceptions.DomainError": ["lsst.pex.exceptions.LogicError", "lsst.pex.exceptions.Exception",
                                        "Exception", "BaseException", "builtins.LogicError"],
    "lsst.pex.exceptions.RuntimeError": ["lsst.pex.exceptions.Exception", "Exception", "BaseException",
                                         "RuntimeError"],
    "lsst.pex.config.FieldValidationError": ["ValueError", "Exception", "BaseException"],
    "lsst.pex.exceptions.LogicError": ["lsst.pex.exceptions.Exception", "Exception", "BaseException"],
    "lsst.pex.exceptions.Exception": ["Exception", "BaseException"],
}


class Interp:
    def __init__(self, root=None, repo=None, overlay=None):
        # another tree only while developing the rules (tools/try.py)
        self.repo = repo or os.environ.get("SKYMAP_TREE", "/repo")
        self.root = root or os.path.join(self.repo, "python/lsst/skymap")
        self.modules = {}
        self.heap = {}
        self.nid = 0
        self.G = TRUE
        self.excs = []         # stack of lists
        self.tries = []        # what the enclosing try statements handle
        self.events = []
        self.loops = []        # stack of (binder value, count)
        self.ctx = []
        self.calls = []        # FuncVal stack
        self.frames = []
        self.journals = []     # loop evaluations in progress
        from loops import WriteLog
        self.writes = WriteLog(self)   # (objid, field, guard, value, old, loc)
        self.problems = []     # link problems (rule C35)
        self.memos = []        # functions with a cache
        self.inlined = set()
        self.node = None
        self.clones = {}
        self.raise_hook = None
        self.assumptions = set()
        self.callcount = 0
        self.unknown_log = set()
        import models
        self.models = models
        models.bind(self)
        self.discover()

    # ------------------------------------------------------------ package
    def discover(self):
        self.files = {}
        for d, sub_, fs in os.walk(self.root):
            sub_[:] = [s for s in sub_ if s != "__pycache__"]
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                    name = PKG + ("" if rel == "__init__" else "." + rel)
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.files[name] = p

    def load(self, name):
        m = self.modules.get(name)
        if m is None:
            p = self.files[name]
            m = Module(name, p, os.path.relpath(p, self.repo))
            self.modules[name] = m
            m.env["__name__"] = const(name)
            fr = Frame(None, m)
            fr.env = m.env
            self.run_frame(fr, m.tree.body)
            m.done = True
        return m

    def run_frame(self, fr, body):
        saveG, self.G = self.G, TRUE
        saveL, self.loops = self.loops, []
        self.frames.append(fr)
        self.excs.append([])
        self.block(body, fr)
        ex = self.excs.pop()
        self.frames.pop()
        for g, e in ex:
            self.problem("module-level code raises %s" % exc_name(e), fr.module.relpath)
        self.G, self.loops = saveG, saveL

    def spec(self, src, name="spec"):
        """Load specification source; returns its namespace."""
        m = SpecModule(src, name)
        m.env["__name__"] = const(name)
        fr = Frame(None, m)
        fr.env = m.env
        self.run_frame(fr, m.tree.body)
        m.done = True
        return m.env

    def load_all(self):
        for n in sorted(self.files):
            self.load(n)

    def problem(self, msg, loc=None):
        if loc is None:
            loc = self.loc()
        p = (loc, msg)
        if p not in self.problems:
            self.problems.append(p)

    def fails(self, name, msg):
        """A construct that cannot work: raises `name`; noted as a problem
        unless the code is prepared for it."""
        if not any(name in t or "Exception" in t for ts in self.tries for t in ts):
            self.problem(msg)
        self.raise_if(TRUE, name)
        return UNDEF

    def loc(self):
        fr = self.frames[-1] if self.frames else None
        f = fr.module.relpath if fr else "?"
        return "%s:%s" % (f, getattr(self.node, "lineno", "?"))

    def unknown(self, why):
        self.unknown_log.add((self.loc(), why))
        return unk("%s (%s)" % (why, self.loc()))

    # ------------------------------------------------------------ heap
    def alloc(self, cls, **fields):
        self.nid += 1
        o = HObj(self.nid, cls, tuple(b for b, _ in self.loops), self.loc(), self.G)
        o.fields.update(fields)
        self.heap[self.nid] = o
        return mk("obj", self.nid)

    def obj(self, t):
        return self.heap[t.args[0]]

    def getf(self, t, name):
        v = self.obj(t).fields.get(name)
        if v is None:
            return None
        return restrict(v, self.G)

    def setf(self, t, name, v, raw=False):
        o = self.obj(t)
        old = o.fields.get(name)
        g = self.relG(o)
        if old is None:
            new = v if g is TRUE or raw else ite(g, v, UNDEF)
        else:
            new = ite(g, v, old)
        self.writes.append((o.id, name, self.G, v, old, self.loc()))
        o.fields[name] = new

    def snapshot(self):
        """State of every object, for restore()."""
        return ({i: dict(o.fields) for i, o in self.heap.items()},
                [(d, dict(d)) for d in self.namespaces()],
                [(f, list(f.memo)) for f in self.memos], dict(self.clones))

    def namespaces(self):
        """Attributes of modules and classes."""
        for m in self.modules.values():
            yield m.env
            for v in list(m.env.values()):
                if isinstance(v, T) and v.op == "py" and isinstance(v.args[0], ClassVal):
                    yield v.args[0].attrs

    def restore(self, snap, drop=False):
        if drop:
            # nothing made since is needed any more
            for i in [i for i in self.heap if i not in snap[0]]:
                del self.heap[i]
            self.clones = dict(snap[3])
        for i, f in snap[0].items():
            d = self.heap[i].fields
            d.clear()
            d.update(f)
        for d, f in snap[1]:
            if d != f:
                d.clear()
                d.update(f)
        for f, m in snap[2]:
            f.memo[:] = m

    def relG(self, o):
        """The current condition, given that the object o exists."""
        if o.born is TRUE or self.G is FALSE:
            return self.G
        return restrict(self.G, o.born)

    def isobj(self, t, *cls):
        return t.op == "obj" and (not cls or self.obj(t).cls in cls)

    def newlist(self, s):
        return self.alloc("list", seq=s)

    # ------------------------------------------------------------ frames
    def block(self, stmts, fr):
        for s in stmts:
            if self.G is FALSE:
                return
            self.stmt(s, fr)

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env and not (f is not fr and f.cls is not None):
                v = restrict(f.env[name], self.G) if f.module.env is not f.env else f.env[name]
                if v is UNDEF:
                    break
                if v.op == "ite" and UNDEF in leafset(v):
                    self.problem("name %r may be unbound" % name)
                    v = lift(lambda x: x if x is not UNDEF else unk("unbound " + name), v)
                return v
            f = f.closure
        m = fr.module
        if name in m.env:
            return m.env[name]
        if name == "__file__":
            return const(m.relpath)
        if hasattr(builtins, name):
            return mk("ext", "builtins." + name)
        if not m.done and fr.env is m.env:
            pass
        self.problem("undefined name %r" % name)
        return self.unknown("undefined name " + name)

    def assign(self, name, v, fr):
        if name in fr.globals:
            fr = _ModFrame(fr.module)
        old = fr.env.get(name)
        if old is None or self.G is TRUE:
            fr.env[name] = v if self.G is TRUE else ite(self.G, v, UNDEF)
        else:
            fr.env[name] = ite(self.G, v, old)

    # ------------------------------------------------------------ statements
    def stmt(self, s, fr):
        self.node = s
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown("statement " + type(s).__name__)
            return
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.e_yield(s.value, fr)
            return
        self.ev(s.value, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            v = self.import_module(a.name)
            if a.asname:
                self.assign(a.asname, v, fr)
            else:
                self.assign(a.name.split(".")[0], self.import_module(a.name.split(".")[0]), fr)

    def import_module(self, name):
        if name in self.files:
            self.load(name)
            return mk("mod", name)
        if name.startswith(PKG + ".") and name != PKG + ".version":
            self.problem("import of missing module " + name)
        return mk("ext", name)

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            parts = fr.module.name.split(".")
            if not fr.module.ispkg:
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        internal = base in self.files
        if not internal and base.startswith(PKG) and base != PKG + ".version":
            self.problem("import from missing module " + base)
        if internal:
            m = self.load(base)
        for a in s.names:
            if a.name == "*":
                if internal:
                    allv = m.env.get("__all__")
                    names = [k for k in m.env if not k.startswith("_")]
                    if allv is not None:
                        it = self.seqterm(allv)
                        it = seq_items(it) if it is not None else None
                        if it is not None:
                            names = [cval(x) for x in it]
                    for n in names:
                        if n in m.env:
                            self.assign(n, m.env[n], fr)
                        elif m.done:
                            self.problem("%s.__all__ names missing %r" % (base, n))
                continue
            if internal:
                if a.name in m.env:
                    v = m.env[a.name]
                elif base + "." + a.name in self.files:
                    v = self.import_module(base + "." + a.name)
                else:
                    if a.name != "version":
                        self.problem("cannot import name %r from %s" % (a.name, base))
                    v = mk("ext", base + "." + a.name)
            elif base + "." + a.name in self.files:
                v = self.import_module(base + "." + a.name)
            else:
                self.models.check_import(self, base, a.name)
                v = self.models.ext_attr(self, mk("ext", base), a.name)
            self.assign(a.asname or a.name, v, fr)

    def s_Global(self, s, fr):
        fr.globals.update(s.names)

    def s_Nonlocal(self, s, fr):
        self.unknown("nonlocal")

    def s_FunctionDef(self, s, fr):
        self.assign(s.name, self.make_func(s, fr), fr)

    def make_func(self, s, fr):
        lam = isinstance(s, ast.Lambda)
        closure = fr if fr.func is not None or fr.cls is not None else None
        f = FuncVal(s, fr.module, "<lambda>" if lam else s.name, closure, fr.cls)
        if fr.cls is not None:
            f.closure = fr.closure
        a = s.args
        f.defaults = [self.ev(d, fr) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        v = py(f)
        if lam:
            return v
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, fr), v, f, fr, d)
        return v

    def decorate(self, d, v, f, fr, node):
        if d.op == "ext":
            n = d.args[0]
            if n == "builtins.property":
                return py(PropVal(v))
            if n == "builtins.staticmethod":
                f.static = True
                return v
            if n == "builtins.classmethod":
                f.classm = True
                return v
            if n == "abc.abstractmethod":
                f.abstract = True
                return v
            if n in ("functools.lru_cache", "functools.cache"):
                if isinstance(v, T) and v.op == "py" and isinstance(v.args[0], FuncVal):
                    v.args[0].memo = []
                    self.memos.append(v.args[0])
                return v
            if n in ("typing.no_type_check", "typing.final", "typing.override"):
                return v
            if n == "functools.cached_property":
                return py(PropVal(v, cached=True))
            if n == "abc.abstractproperty":
                return py(PropVal(v))
            if n == "dataclasses.dataclass" and isinstance(v, T) and isinstance(v.args[0], ClassVal):
                v.args[0].dataclass = True
                return v
        if d.op == "deco":
            if d.args[0] == "dataclass" and isinstance(v.args[0], ClassVal):
                v.args[0].dataclass = True
            return v
        if d.op == "propset":
            p = d.args[0].args[0]
            return py(PropVal(p.fget, v) if d.args[1] == "setter" else PropVal(v, p.fset))
        if d.op == "py" and isinstance(d.args[0], FuncVal):
            return self.call(d, [v], {}, node)
        if d.op in ("ext", "x"):
            return v
        return self.unknown("decorator")

    def s_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr)
            if v.op == "py" and isinstance(v.args[0], ClassVal):
                bases.append(v.args[0])
            elif v.op == "ext":
                bases.append(ExtClass(v.args[0]))
            else:
                self.unknown("base class")
                bases.append(ExtClass("?" + ast.unparse(b)))
        c = ClassVal(s.name, fr.module, bases, s)
        cf = Frame(None, fr.module, fr if fr.func is not None else None)
        cf.cls = c
        cf.env = c.attrs
        c.attrs["__qualname__"] = const(s.name)
        names = [b.name for b in bases if isinstance(b, ExtClass)]
        saved = self.frames
        self.frames = self.frames + [cf]
        if "typing.NamedTuple" in names:
            c.namedtuple = []
            for st in s.body:
                if isinstance(st, ast.AnnAssign):
                    c.namedtuple.append((st.target.id, self.ev(st.value, cf) if st.value else None))
                else:
                    self.stmt(st, cf)
        else:
            self.block(s.body, cf)
        self.frames = saved
        v = py(c)
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, fr), v, None, fr, d)
        self.assign(s.name, v, fr)

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NONE
        fr.ret = ite(self.G, v, fr.ret) if fr.retg is not FALSE else v
        fr.retg = or_(fr.retg, self.G)
        self.G = FALSE

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.bindt(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.bindt(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            if self.aug_inplace(old, s, fr):
                return
            v = self.binop(s.op, old, self.ev(s.value, fr), s)
            self.assign(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr, t)
            if self.aug_inplace(old, s, fr):
                return
            v = self.binop(s.op, old, self.ev(s.value, fr), s)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.getitem(o, k, t)
            if self.aug_inplace(old, s, fr):
                self.setitem(o, k, old, t)
                return
            v = self.binop(s.op, old, self.ev(s.value, fr), s)
            self.setitem(o, k, v, t)

    def aug_inplace(self, old, s, fr):
        old = restrict(old, self.G)
        if old.op == "obj" and self.obj(old).cls == "list" and isinstance(s.op, ast.Add):
            self.models.list_extend(self, old, self.ev(s.value, fr))
            return True
        if old.op == "obj" and self.obj(old).cls in ("Point2I", "Point2D", "Extent2I", "Extent2D", "ndarray"):
            v = self.binop(s.op, old, self.ev(s.value, fr), s)
            if v.op == "obj" and self.obj(v).cls == self.obj(old).cls:
                for k, x in list(self.obj(v).fields.items()):
                    self.setf(old, k, x)
                return True
            return False
        if old.op == "obj" and isinstance(self.obj(old).cls, ClassVal):
            name = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(type(s.op).__name__)
            f, _ = self.obj(old).cls.lookup(name) if name else (None, None)
            if f is not None:
                self.call(self.getattr(old, name, s), [self.ev(s.value, fr)], {}, s)
                return True
        return False

    def bindt(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vs):
                self.bindt(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Starred):
            self.bindt(t.value, v, fr)

    def unpack(self, v, n, star):
        v = restrict(v, self.G)
        if any(star):
            st = self.seqterm(v)
            it = seq_items(st) if st is not None else None
            if it is None:
                return [self.unknown("starred unpack")] * n
            i = star.index(True)
            k = len(it) - (n - 1)
            return it[:i] + [self.newlist(seq(*[seg(x) for x in it[i:i + k]]))] + it[i + k:]

        def one(u):
            if u.op == "tup" and len(u.args) - 1 == n:
                return list(u.args[1:])
            st = self.seqterm(u)
            if st is not None:
                it = seq_items(st)
                if it is not None:
                    if len(it) == n:
                        return it
                    return [self.unknown("unpack length")] * n
                return [self.seq_elem(st, num(i)) for i in range(n)]
            if u.op in ("x", "bmx"):
                return [mk("x", None, "item", u, num(i)) for i in range(n)]
            return [self.unknown("unpack " + show(u)[:60])] * n
        if v.op == "ite":
            out = None
            for g, u in leaves(v):
                r = one(u)
                out = r if out is None else [ite(g, a, b) for a, b in zip(r, out)]
            return out
        return one(v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env[t.id] = UNDEF
            else:
                self.unknown("del")

    def truth(self, v):
        """Boolean value of v as a diagram."""
        def one(u):
            if u is TRUE or u is FALSE:
                return u
            if u.op == "const":
                return boolc(bool(cval(u)))
            if u.op == "num":
                return not_(eq0(u))
            if u.op == "unk":
                return batom("unknown", u)
            if u.op == "tup":
                return boolc(len(u.args) > 1)
            if u.op == "obj":
                o = self.obj(u)
                if o.cls in ("list", "dict", "set"):
                    st = self.seqterm(u)
                    if st is not None:
                        n = self.seq_len(st)
                        return lift(lambda k: not_(eq0(k)), n)
                    return batom("nonempty", self.freeze(u))
                if o.cls == "ndarray":
                    return restrict(o.fields["elem"], TRUE)
                if isinstance(o.cls, ClassVal):
                    for n in ("__bool__", "__len__"):
                        f, _ = o.cls.lookup(n)
                        if f is not None:
                            r = self.call(mk("bm", u, f), [], {}, self.node)
                            return self.truth(r) if n == "__bool__" else lift(lambda k: not_(eq0(k)), r)
                return TRUE
            if u.op in ("seq", "symseq"):
                return lift(lambda k: not_(eq0(k)), self.seq_len(u))
            if u.op == "ang":
                return lift(lambda k: not_(eq0(k)), u.args[0])
            if u.op in ("py", "bm", "ext", "mod", "exc"):
                return TRUE
            return batom("truth", u)
        return lift(one, restrict(v, self.G))

    def s_If(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        G0 = self.G
        self.G = and_(G0, c)
        self.block(s.body, fr)
        G1 = self.G
        self.G = and_(G0, not_(c))
        self.block(s.orelse, fr)
        self.G = or_(G1, self.G)

    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        self.raise_if(not_(c), "AssertionError")

    def raise_if(self, c, name):
        g = and_(self.G, c)
        if g is FALSE:
            return
        self.excs[-1].append((g, mk("exc", name, self.loc())))
        self.G = and_(self.G, not_(c))

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = fr.env.get("@exc")
            e = cur if cur is not None else mk("exc", "RuntimeError", self.loc())
        else:
            v = self.ev(s.exc, fr)
            if v.op == "ext" or v.op == "py":
                v = self.call(v, [], {}, s)
            e = v if v.op == "exc" else None
            if s.cause is not None:
                self.ev(s.cause, fr)
            if e is None:
                if v.op == "ite" and all(x.op == "exc" for x in leafset(v)):
                    for g, x in leaves(v, self.G):
                        self.excs[-1].append((g, mk("exc", x.args[0], self.loc())))
                    self.G = FALSE
                    return
                e = mk("exc", "Unknown", self.loc())
            else:
                e = mk("exc", e.args[0], self.loc())
        if self.G is not FALSE:
            self.excs[-1].append((self.G, e))
        self.G = FALSE

    def exc_matches(self, e, cls):
        """cls: class term; True/False/None."""
        ec = e.args[0]
        if isinstance(ec, T):     # internal class
            cv = ec.args[0]
            if cls.op == "py":
                return cls.args[0] in cv.mro()
            target = cls.args[0]
            for b in cv.mro():
                if isinstance(b, ExtClass) and self._extsub(b.name.replace("builtins.", ""),
                                                            target.replace("builtins.", "")):
                    return True
            return False
        if cls.op == "ext":
            return self._extsub(str(ec), cls.args[0].replace("builtins.", ""))
        return False

    def _extsub(self, a, b):
        if a == b:
            return True
        if a in EXT_EXC_PARENTS:
            return b in EXT_EXC_PARENTS[a]
        ca, cb = getattr(builtins, a, None), getattr(builtins, b, None)
        if isinstance(ca, type) and isinstance(cb, type):
            return issubclass(ca, cb)
        if isinstance(cb, type) and b in ("Exception", "BaseException"):
            return True
        return False

    def s_Try(self, s, fr):
        self.excs.append([])
        G0 = self.G
        self.tries.append([ast.unparse(h.type) if h.type is not None else "BaseException" for h in s.handlers])
        try:
            self.block(s.body, fr)
        finally:
            self.tries.pop()
        ex = self.excs.pop()
        # normal completion
        self.block(s.orelse, fr)
        Gn = self.G
        rest = ex
        for h in s.handlers:
            if h.type is None:
                types = [mk("ext", "builtins.BaseException")]
            else:
                self.G = G0
                tv = self.ev(h.type, fr)
                types = list(tv.args[1:]) if tv.op == "tup" else [tv]
            mine, other = [], []
            for g, e in rest:
                (mine if any(self.exc_matches(e, t) for t in types) else other).append((g, e))
            rest = other
            g = or_(*[x for x, _ in mine]) if mine else FALSE
            if g is FALSE:
                # analyse the handler for link problems only
                continue
            self.G = g
            e = mine[0][1]
            old = fr.env.get("@exc")
            fr.env["@exc"] = e
            if h.name:
                self.assign(h.name, e, fr)
            self.block(h.body, fr)
            if old is not None:
                fr.env["@exc"] = old
            else:
                fr.env.pop("@exc", None)
            Gn = or_(Gn, self.G)
        self.G = Gn
        self.excs[-1].extend(rest)
        if s.finalbody:
            # run once under the union of all exits (normal or raised)
            g = or_(Gn, fr.retg, *[x for x, _ in rest])
            keep = Gn
            self.G = g
            self.block(s.finalbody, fr)
            self.G = and_(keep, self.G)

    s_TryStar = s_Try

    def s_With(self, s, fr):
        entered = []
        for it in s.items:
            v = restrict(self.ev(it.context_expr, fr), self.G)
            if v.op == "obj" and isinstance(self.obj(v).cls, ClassVal):
                r = self.call(self.getattr(v, "__enter__", s), [], {}, s)
            else:
                r = v
            self.ctx.append(self.freeze(v))
            entered.append(v if v.op == "obj" and isinstance(self.obj(v).cls, ClassVal) else None)
            if it.optional_vars is not None:
                self.bindt(it.optional_vars, r, fr)
        self.block(s.body, fr)
        for it in reversed(entered):
            self.ctx.pop()
            if it is not None and self.G is not FALSE and self.obj(it).cls.lookup("__exit__")[0] is not None:
                self.call(self.getattr(it, "__exit__", s), [NONE, NONE, NONE], {}, s)

    def s_Break(self, s, fr):
        lp = fr.loops[-1]
        lp["break"] = or_(lp["break"], self.G)
        self.G = FALSE

    def s_Continue(self, s, fr):
        lp = fr.loops[-1]
        lp["cont"] = or_(lp["cont"], self.G)
        self.G = FALSE

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        dom = self.domain(it)
        if dom is None:
            self.unknown("iteration over " + show(it)[:80])
            dom = (sym("unknown-count", "int"), lambda i: unk("element of unknown iterable"), None)
        count, elem, concrete = dom
        if isinstance(count, tuple):
            concrete = None
        if concrete is not None and len(concrete) <= 64 and (len(concrete) <= MAXUNROLL or not self.is_simple_range(
                it)):
            lp = {"break": FALSE, "cont": FALSE}
            fr.loops.append(lp)
            for g, x in concrete:
                if self.G is FALSE:
                    break
                G0 = self.G
                self.G = and_(G0, g)
                self.bindt(s.target, x, fr)
                self.block(s.body, fr)
                self.G = or_(self.G, lp["cont"], and_(G0, not_(g)))
                lp["cont"] = FALSE
            fr.loops.pop()
            if s.orelse:
                self.block(s.orelse, fr)
            self.G = or_(self.G, lp["break"])
            return
        from loops import run_for
        run_for(self, s, fr, count, elem)

    def is_simple_range(self, it):
        return it.op == "range"

    def s_While(self, s, fr):
        from loops import run_while
        run_while(self, s, fr)

    # ------------------------------------------------------------ iteration
    def seqterm(self, v):
        """seq/symseq/range-like term of an iterable value, or None."""
        if v.op in ("seq", "symseq"):
            return v
        if v.op == "tup":
            return seq(*[seg(x) for x in v.args[1:]])
        if v.op == "const" and isinstance(cval(v), str):
            return seq(*[seg(const(c)) for c in cval(v)])
        if v.op == "range":
            lo, hi, st = v.args
            n = num_const(sub(hi, lo))
            if n is not None and num_const(lo) is not None and num_const(st) is not None:
                r = range(int(num_const(lo)), int(num_const(hi)), int(num_const(st)))
                if len(r) <= 64:
                    return seq(*[seg(num(x)) for x in r])
            if num_const(st) == 1:
                cnt = self.count(sub(hi, lo))
                b = fresh_binder(cnt)
                return seq(mk_comp(b, cnt, TRUE, [seg(add(lo, b))]))
            return None
        if v.op == "obj":
            o = self.obj(v)
            if o.cls in ("list", "set", "deque"):
                r = restrict(o.fields["seq"], self.G)
                if o.cls == "set":
                    return self.models.distinct(self, r)
                return r if r.op in ("seq", "symseq") else None
            if o.cls in ("Point2I", "Point2D", "Extent2I", "Extent2D"):
                return seq(seg(self.getf(v, "x")), seg(self.getf(v, "y")))
            if o.cls == "dict":
                return self.models.dict_keys_seq(self, v)
            if o.cls == "ndarray":
                return self.models.vec_seq(self, v)
        if v.op == "x" and v.args[0] in ("seq", "list", "mapping", "items", "values"):
            return mk("symseq", v, "any", atom(mk("len", v)))
        return None

    def count(self, n):
        """Number of iterations for a difference n: max(n, 0)."""
        return lift(lambda k: terms.relu(k) if k.op == "num" else unk("count"), n)

    def seq_len(self, st):
        if st.op == "symseq":
            return st.args[2]
        tot = ZERO
        for g in st.args:
            if g.op == "seg":
                tot = lift_num(add, tot, ite(g.args[0], ONE, ZERO))
            elif g.op == "comp":
                inner = self.seq_len(seq(*g.args[3:]))
                cnt = g.args[1]
                if comp_binder(g) not in all_atoms(inner) and comp_binder(g) not in all_atoms(g.args[2]):
                    tot = lift_num(lambda a, b, c: add(a, mul(b, c)), tot, cnt, ite(g.args[2], inner, ZERO))
                else:
                    tot = lift_num(add, tot, atom(mk("count", g)))
            elif g.op == "splice":
                tot = lift_num(add, tot, ite(g.args[0], atom(mk("len", g.args[1])), ZERO))
            elif g.op == "stored":
                return self.seq_len(g.args[0])
            else:
                return self.unknown("length")
        return tot

    def seq_elem(self, st, i, kind=None):
        """Element i of a sequence term (no range check)."""
        if st.op == "symseq":
            return self.models.symseq_elem(self, st, i)
        c = num_const(i)
        if c is not None and c.denominator == 1:
            c = int(c)
            items = seq_items(st)
            if items is not None:
                if -len(items) <= c < len(items):
                    return items[c]
                return self.unknown("index out of range")
            # leading concrete part
            if c >= 0:
                pre = []
                for g in st.args:
                    if g.op == "seg" and g.args[0] is TRUE:
                        pre.append(g.args[1])
                    else:
                        break
                if c < len(pre):
                    return pre[c]
            else:
                post = []
                for g in reversed(st.args):
                    if g.op == "seg" and g.args[0] is TRUE:
                        post.append(g.args[1])
                    else:
                        break
                if -c <= len(post):
                    return post[-c - 1]
        if len(st.args) == 1 and st.args[0].op == "comp":
            cm = st.args[0]
            if c is not None and c < 0:
                i = lift_num(add, i, cm.args[1]) if cm.args[1].op == "num" else i
            if cm.args[2] is TRUE and len(cm.args) == 4 and cm.args[3].op == "seg" and cm.args[3].args[0] is TRUE:
                e = cm.args[3].args[1]
                if e.op == "num" and (terms.contains(e, "floor") or terms.contains(e, "relu")) and \
                        c is None and not terms.contains(e, "loopout"):
                    return atom(mk("elem", st, i, "int" if is_int(e) else "real"))
                return self.instantiate(e, comp_binder(cm), i)
        if len(st.args) == 1 and st.args[0].op == "stored":
            base, idx, val, g = st.args[0].args
            eq = eq0(sub(i, idx)) if i.op == "num" and idx.op == "num" else lift(
                lambda a, b: eq0(sub(a, b)), i, idx)
            cond = and_(eq, g)
            if cond is TRUE:
                return val
            return ite(cond, val, self.seq_elem(base, i))
        if len(st.args) == 1 and st.args[0].op == "storedall":
            base, binder, val, g = st.args[0].args
            v = self.instantiate(val, binder, i)
            gg = subst(g, {binder: i})
            inr = and_(le(ZERO, i), lt(i, binder.args[1])) if i.op == "num" else TRUE
            return ite(and_(gg, inr), v, self.seq_elem(base, i)) if and_(gg, inr) is not TRUE else v
        items = seq_items(st)
        if items is not None and 0 < len(items) <= 12 and i.op == "num":
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ite(eq0(sub(i, num(k))), items[k], r)
            return r
        allnum = self.seq_kind(st)
        if allnum:
            return atom(mk("elem", st, i, allnum))
        return mk("x", None, "elem", st, i)

    def seq_kind(self, st):
        k = None
        for g in st.args:
            if g.op == "seg":
                e = [g.args[1]]
            elif g.op == "comp":
                kk = self.seq_kind(seq(*g.args[3:]))
                if not kk:
                    return None
                k = "real" if "real" in (k, kk) else "int"
                continue
            else:
                return None
            for x in e:
                for lf in leafset(x):
                    if lf.op != "num":
                        return None
                    kk = "int" if is_int(lf) else "real"
                    k = "real" if "real" in (k, kk) else "int"
        return k

    def instantiate(self, e, binder, i, memo=None):
        """Value of a loop-body term for loop index i: substitutes the index
        and clones the objects that the iteration allocated."""
        if e.op == "num" or not self.has_objs(e):
            return subst(e, {binder: i})
        m = {binder: i}
        t = subst(e, m)
        return self.clone_objs(t, binder, i)

    def has_objs(self, e):
        return any(u.op == "obj" for u in all_atoms(e))

    def clone_objs(self, t, binder, i):
        m = {}
        for u in all_atoms(t):
            if u.op == "obj":
                o = self.obj(u)
                b = [x for x in o.loops if self.stands(x, binder)]
                if b:
                    m[u] = self.clone(u, binder, i)
        if not m:
            return t
        return subst(t, m)

    def stands(self, x, binder):
        """Is the loop index x the one that `binder` stands for?"""
        return x is binder or binder in self.canonical(x)

    def canonical(self, x, depth=0):
        """The canonical loop indices that x stands for: an index whose count
        depends on the index of a loop around it stands for one that depends
        on what that index stands for."""
        cs = self.origin.get(x, ())
        if depth > 4 or not any(u is not c and u in self.origin for c in cs for u in all_atoms(c)):
            return cs
        out = set(cs)
        for c in cs:
            todo = {c}
            for u in all_atoms(c):
                if u is not c and u in self.origin:
                    todo |= {subst(d, {u: atom(v)}) for d in todo for v in self.canonical(u, depth + 1)}
                if len(todo) > 64:
                    break
            out |= todo
        return out

    def clone(self, u, binder, i):
        key = (u, binder, i)
        if key in self.clones:
            return self.clones[key]
        o = self.obj(u)
        self.nid += 1
        m = {x: i for x in o.loops if self.stands(x, binder)}
        m.setdefault(binder, i)
        for x in o.loops:
            if x not in m and binder not in self.canonical(x):
                y = subst(x, m)
                if y is not x:
                    self.origin.setdefault(y, set()).update(subst(c, m) for c in self.canonical(x))
        n = HObj(self.nid, o.cls, tuple(subst(x, m) for x in o.loops if not self.stands(x, binder))
                 + tuple(b for b, _ in self.loops), o.site)
        n.born = subst(o.born, m)
        self.heap[n.id] = n
        r = mk("obj", n.id)
        self.clones[key] = r
        for k, v in o.fields.items():
            v2 = subst(v, m)
            n.fields[k] = self.clone_objs(v2, binder, i)
        return r

    def domain_cases(self, ls):
        """Iteration over one of several values."""
        if len(ls) > 12:
            return None
        ds = []
        G = self.G
        for g, x in ls:
            self.G = and_(G, g)
            try:
                d = self.domain(x)
            finally:
                self.G = G
            if d is None or isinstance(d[0], tuple):
                return None
            ds.append((g, d))

        def choose(f):
            v = f(ds[-1][1])
            for g, d in reversed(ds[:-1]):
                v = ite(g, f(d), v)
            return v
        conc = None
        if all(d[2] is not None for _, d in ds):
            conc = []
            for k in range(max(len(d[2]) for _, d in ds)):
                c, v = FALSE, None
                for g, d in reversed(ds):
                    if k < len(d[2]):
                        e = and_(g, d[2][k][0])
                        c = or_(c, e)
                        v = d[2][k][1] if v is None else ite(e, d[2][k][1], v)
                # the cases are all there are
                if all(k < len(d[2]) and d[2][k][0] is TRUE for _, d in ds):
                    c = TRUE
                conc.append((c, v))
        return choose(lambda d: d[0]), (lambda i: choose(lambda d: d[1](i))), conc

    def domain(self, v):
        """Iteration domain of a value: (count, elem(i), concrete or None)
        where concrete is a list of (guard, value)."""
        v = restrict(v, self.G)
        if v.op == "ite":
            ls = leaves(v, self.G)
            ls = [x for x in ls if x[0] is not FALSE]
            if len(ls) == 1:
                return self.domain(ls[0][1])
            return self.domain_cases(ls)
        if v.op == "obj" and isinstance(self.obj(v).cls, ClassVal):
            f, _ = self.obj(v).cls.lookup("__iter__")
            if f is not None:
                return self.domain(self.call(self.getattr(v, "__iter__", self.node), [], {}, self.node))
            g, _ = self.obj(v).cls.lookup("__getitem__")
            if g is not None:
                n = self.length(v)
                return n, (lambda i: self.getitem(v, i, self.node)), None
            return None
        if v.op == "range":
            lo, hi, st = v.args
            if num_const(st) == 1:
                n = num_const(lift_num(sub, hi, lo)) if hi.op == lo.op == "num" else None
                conc = None
                if n is not None and n.denominator == 1 and n <= 64:
                    conc = [(TRUE, add(lo, num(k))) for k in range(max(0, int(n)))]
                return self.count(lift_num(sub, hi, lo)), (lambda i: lift_num(add, lo, i)), conc
            t = self.seqterm(v)
            if t is not None:
                return self.domain(t)
            return None
        if v.op == "zip":
            ds = [self.domain(x) for x in v.args]
            if any(d is None or isinstance(d[0], tuple) for d in ds):
                return None
            conc = None
            if all(d[2] is not None for d in ds):
                n = min(len(d[2]) for d in ds)
                conc = [(and_(*[d[2][k][0] for d in ds]), mk("tup", "", *[d[2][k][1] for d in ds]))
                        for k in range(n)]
                return num(n), (lambda i: mk("tup", "", *[d[1](i) for d in ds])), conc
            n = ds[0][0]
            for d in ds[1:]:
                if d[0] is not n:
                    n = lift_num(min_, n, d[0])
            return n, (lambda i: mk("tup", "", *[d[1](i) for d in ds])), None
        if v.op == "enum":
            d = self.domain(v.args[0])
            if d is None or isinstance(d[0], tuple):
                return None
            st = v.args[1]
            conc = None
            if d[2] is not None:
                if all(g is TRUE for g, _ in d[2]):
                    conc = [(TRUE, mk("tup", "", lift_num(add, st, num(k)), x)) for k, (g, x) in enumerate(d[2])]
                else:
                    conc, n = [], st
                    for g, x in d[2]:
                        conc.append((g, mk("tup", "", n, x)))
                        n = lift_num(add, n, ite(g, ONE, ZERO))
            return d[0], (lambda i: mk("tup", "", lift_num(add, st, i), d[1](i))), conc
        if v.op == "mapped":
            f, src = v.args[0], v.args[1]
            d = self.domain(src)
            if d is None:
                return None
            if isinstance(d[0], tuple):
                from loops import map_seq
                return self.domain(map_seq(self, d[0][1], lambda x: self.call(f, [x], {}, self.node)))
            conc = None
            if d[2] is not None:
                conc = [(g, self.call(f, [x], {}, self.node)) for g, x in d[2]]
            return d[0], (lambda i: self.call(f, [d[1](i)], {}, self.node)), conc
        if v.op == "genlazy":
            return self.domain(v.args[0])
        st = self.seqterm(v)
        if st is None:
            if v.op == "x" or v.op == "bmx":
                n = atom(mk("len", v))
                # the elements of a list are its items
                how = "item" if v.op == "x" and v.args[0] is None else "elem"
                return n, (lambda i: mk("x", None, how, v, i)), None
            return None
        if st.op == "symseq":
            return st.args[2], (lambda i: self.seq_elem(st, i)), None
        if all(g.op == "seg" for g in st.args):
            return num(len(st.args)), (lambda i: self.seq_elem(st, i)), [(g.args[0], g.args[1]) for g in st.args]
        if len(st.args) == 1 and st.args[0].op == "comp":
            cm = st.args[0]
            if len(cm.args) == 4 and cm.args[3].op == "seg" and cm.args[3].args[0] is TRUE and cm.args[2] is TRUE:
                return cm.args[1], (lambda i: self.instantiate(cm.args[3].args[1], comp_binder(cm), i)), None
            # filtered or nested: iterate with structure kept
            return ("nested", st), None, None
        if len(st.args) == 1 and st.args[0].op in ("stored", "storedall"):
            return self.seq_len(st), (lambda i: self.seq_elem(st, i)), None
        return ("nested", st), None, None

    def length(self, v):
        v = restrict(v, self.G)
        if v.op == "ite":
            return self.cases([v], lambda u: self.length(u))
        if v.op == "obj" and isinstance(self.obj(v).cls, ClassVal):
            f, _ = self.obj(v).cls.lookup("__len__")
            if f is not None:
                return self.call(self.getattr(v, "__len__", self.node), [], {}, self.node)
        if v.op == "range":
            return self.count(lift_num(sub, v.args[1], v.args[0]))
        if v.op == "const" and isinstance(cval(v), (str, bytes)):
            return num(len(cval(v)))
        if v.op == "x" and v.args[0] == "str":
            return atom(mk("len", v))
        st = self.seqterm(v)
        if st is not None:
            return self.seq_len(st)
        if v.op == "obj":
            r = self.models.obj_len(self, v)
            if r is not None:
                return r
        if v.op in ("x", "bmx"):
            return atom(mk("len", v))
        return self.unknown("len of " + show(v)[:60])

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        self.node = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return const(v)
        if isinstance(v, complex):
            return self.unknown("complex")
        return num(v)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Tuple(self, e, fr):
        items = []
        opaque = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                st = self.seqterm(restrict(v, self.G))
                it = seq_items(st) if st is not None else None
                if it is None:
                    opaque = True
                    items.append(("star", st))
                else:
                    items += it
            else:
                items.append(self.ev(x, fr))
        if opaque:
            segs = []
            for it in items:
                if isinstance(it, tuple):
                    if it[1] is None:
                        return self.unknown("starred")
                    segs += list(it[1].args) if it[1].op == "seq" else [mk("splice", TRUE, it[1])]
                else:
                    segs.append(seg(it))
            return seq(*segs)
        return mk("tup", "", *items)

    def e_List(self, e, fr):
        t = self.e_Tuple(e, fr)
        if t.op == "unk":
            return t
        return self.newlist(t if t.op == "seq" else seq(*[seg(x) for x in t.args[1:]]))

    def e_Set(self, e, fr):
        t = self.e_Tuple(e, fr)
        if t.op == "unk":
            return t
        o = self.alloc("set", seq=(t if t.op == "seq" else seq(*[seg(x) for x in t.args[1:]])))
        return o

    def e_Dict(self, e, fr):
        d = self.alloc("dict", d=terms.seq())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.models.dict_set(self, d, kk, self.ev(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v = self.ev(p.value, fr)
                if is_const(v) and isinstance(cval(v), str) and p.conversion == -1 and p.format_spec is None:
                    parts.append(v)
                elif v.op == "num" and num_const(v) is not None and is_int(v) and p.format_spec is None:
                    parts.append(const(str(int(num_const(v)))))
                else:
                    parts.append(mk("x", "str", "fmt", self.freeze(v), const(p.conversion if isinstance(
                        p.conversion, str) else str(p.conversion)),
                        const(ast.unparse(p.format_spec)) if p.format_spec else NONE))
        if all(is_const(p) for p in parts):
            return const("".join(cval(p) for p in parts))
        return mk("x", "str", "join", *parts)

    def e_FormattedValue(self, e, fr):
        return mk("x", "str", "fmt", self.freeze(self.ev(e.value, fr)))

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        self.node = e
        return self.getattr(o, e.attr, e)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return mk("slice", *[self.ev(x, fr) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return mk("tup", "", *[self.ev_index(x, fr) for x in s.elts])
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.ev_index(e.slice, fr)
        self.node = e
        return self.getitem(o, k, e)

    def e_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def e_Starred(self, e, fr):
        return self.unknown("starred")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target.id, v, fr)
        return v

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        G0 = self.G
        self.G = and_(G0, c)
        a = self.ev(e.body, fr) if self.G is not FALSE else UNDEF
        G1 = self.G
        self.G = and_(G0, not_(c))
        b = self.ev(e.orelse, fr) if self.G is not FALSE else UNDEF
        self.G = or_(G1, self.G)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(c, a, b)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        val = None
        G0 = self.G
        out = FALSE
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                val2 = v
                stop = TRUE
            else:
                c = self.truth(v)
                stop = not_(c) if isand else c
                val2 = v
            if val is None:
                val, pend = val2, not_(stop)
            else:
                val = ite(pend, val2, val)
                pend = and_(pend, not_(stop))
            out = or_(out, and_(self.G, stop))
            self.G = and_(self.G, not_(stop))
            if self.G is FALSE:
                break
        self.G = out
        return val

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))

        def one(u):
            if u.op == "num":
                if isinstance(e.op, ast.USub):
                    return neg(u)
                if isinstance(e.op, ast.UAdd):
                    return u
                return self.unknown("unary")
            if u.op == "ang" and isinstance(e.op, ast.USub):
                return mk("ang", lift_num(neg, u.args[0]))
            if isinstance(e.op, ast.Invert) and self.boolish(u):
                return not_(u)
            if u.op == "obj" and self.obj(u).cls == "ndarray":
                if isinstance(e.op, ast.Invert):
                    return self.models.vec_map(self, lambda x: not_(x), u)
                return self.models.vec_map(self, lambda x: lift_num(neg, x), u)
            if u.op == "obj" and isinstance(self.obj(u).cls, ClassVal):
                n = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[type(e.op).__name__]
                f, _ = self.obj(u).cls.lookup(n)
                if f is not None:
                    return self.call(mk("bm", u, f), [], {}, e)
            if u.op == "unk":
                return u
            return mk("x", None, type(e.op).__name__, self.freeze(u))
        v = restrict(v, self.G)
        if self.boolish(v):
            return one(v)
        return self.cases([v], one) if v.op == "ite" and any(l.op == "obj" for l in leafset(v)) else lift(one, v)

    def boolish(self, v):
        return all(l is TRUE or l is FALSE for l in leafset(v))

    def numish(self, v):
        return all(l.op == "num" for l in leafset(v))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        self.node = e
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        n = type(op).__name__
        a, b = restrict(a, self.G), restrict(b, self.G)
        if self.boolish(a) and self.boolish(b) and n in ("BitAnd", "BitOr", "BitXor"):
            return and_(a, b) if n == "BitAnd" else or_(a, b) if n == "BitOr" else or_(and_(a, not_(b)),
                                                                                       and_(b, not_(a)))
        if self.numish(a) and self.numish(b):
            return lift(lambda x, y: self.numop(n, x, y), a, b)
        return self.cases([a, b], lambda x, y: self.models.binop(self, n, x, y, node))

    def numop(self, n, x, y):
        if n == "Add":
            return add(x, y)
        if n == "Sub":
            return sub(x, y)
        if n == "Mult":
            return mul(x, y)
        if n == "Div":
            return div(x, y)
        if n == "FloorDiv":
            d = div(x, y)
            return floor_(d) if d.op == "num" else d
        if n == "Mod":
            d = div(x, y)
            return mod_(x, y) if d.op == "num" else d
        if n == "Pow":
            c = num_const(y)
            if c is not None and c.denominator == 1 and abs(c) <= 16:
                return power(x, int(c))
            if num_const(x) == 2 and is_int(y):
                return atom(mk("app", "pow2", "int", y))
            return atom(mk("app", "pow", "real", x, y))
        if n == "LShift":
            c, k = num_const(x), num_const(y)
            if k is not None:
                return mul(x, num(2 ** int(k)))
            return mul(x, atom(mk("app", "pow2", "int", y)))
        if n == "RShift":
            k = num_const(y)
            if k is not None:
                return floor_(div(x, num(2 ** int(k))))
            return floor_(div(x, atom(mk("app", "pow2", "int", y))))
        cx, cy = num_const(x), num_const(y)
        if cx is not None and cy is not None and n in ("BitAnd", "BitOr", "BitXor"):
            cx, cy = int(cx), int(cy)
            return num(cx & cy if n == "BitAnd" else cx | cy if n == "BitOr" else cx ^ cy)
        return atom(mk("app", n, "int", x, y))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            self.node = e
            c = self.compare(op, left, right, e)
            if res is None:
                res = c
            else:
                res = ite(self.truth(res), c, FALSE)
            left = right
        return res

    def compare(self, op, a, b, node):
        n = type(op).__name__
        a, b = restrict(a, self.G), restrict(b, self.G)
        if n in ("Is", "IsNot"):
            r = lift(lambda x, y: self.is_(x, y), a, b)
            return r if n == "Is" else not_(r)
        if n in ("In", "NotIn"):
            r = self.cases([a, b], lambda x, y: self.models.contains(self, x, y, node))
            return r if n == "In" else not_(self.truth(r))
        if self.numish(a) and self.numish(b):
            return lift(lambda x, y: self.numcmp(n, x, y), a, b)
        if self.boolish(a) and self.boolish(b) and n in ("Eq", "NotEq"):
            x = or_(and_(a, b), and_(not_(a), not_(b)))
            return x if n == "Eq" else not_(x)
        return self.cases([a, b], lambda x, y: self.models.compare(self, n, x, y, node))

    def numcmp(self, n, x, y):
        if n == "Lt":
            return lt(x, y)
        if n == "LtE":
            return le(x, y)
        if n == "Gt":
            return lt(y, x)
        if n == "GtE":
            return le(y, x)
        if n == "Eq":
            return eq0(sub(x, y))
        return not_(eq0(sub(x, y)))

    def is_(self, x, y):
        if x is y:
            return TRUE
        if is_const(x) and is_const(y):
            return FALSE
        for p, q in ((x, y), (y, x)):
            if q is NONE:
                if p.op in ("num", "obj", "tup", "seq", "ang", "py", "ext", "bm", "symseq", "range", "mod"):
                    return FALSE
                if p.op == "x":
                    if p.args[1].startswith("opt:"):
                        return batom("isnone", p)
                    return FALSE
        if x.op == "obj" and y.op == "obj":
            return FALSE
        if x.op in ("py", "ext") and y.op in ("py", "ext"):
            return FALSE
        if {x.op, y.op} & {"unk"}:
            return batom("is", x, y)
        if is_const(x) or is_const(y):
            return FALSE
        return same(x, y)

    def cases(self, vals, f):
        """Dispatch on the leaves of the values under the current guard."""
        vals = [restrict(v, self.G) for v in vals]
        if all(v.op != "ite" or self.numish(v) or self.boolish(v) for v in vals):
            return f(*vals)
        combos = [(self.G, [])]
        for v in vals:
            if v.op == "ite" and not self.numish(v) and not self.boolish(v):
                ls = self.grouped(v)
            else:
                ls = [(TRUE, v)]
            new = []
            for g, acc in combos:
                for g2, u in ls:
                    gg = and_(g, g2)
                    if gg is not FALSE:
                        new.append((gg, acc + [u]))
            combos = new
        if len(combos) == 1:
            return f(*combos[0][1])
        out = None
        Gout = FALSE
        for g, acc in combos:
            self.G = g
            r = f(*acc)
            if self.G is not FALSE:
                out = r if out is None else ite(g, r, out)
            Gout = or_(Gout, self.G)
        self.G = Gout
        return out if out is not None else UNDEF

    def grouped(self, v):
        """Leaves of v, numeric (boolean) leaves grouped into one value."""
        ls = leaves(v)
        nums = [(g, u) for g, u in ls if u.op == "num"]
        rest = [(g, u) for g, u in ls if u.op != "num"]
        if len(nums) > 1:
            g = or_(*[x for x, _ in nums])
            return rest + [(g, restrict(v, g))]
        return ls

    # comprehension
    def e_ListComp(self, e, fr):
        return self.newlist(self.comp(e, fr))

    def e_SetComp(self, e, fr):
        return self.alloc("set", seq=self.comp(e, fr))

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def comp(self, e, fr):
        from loops import run_comp
        return run_comp(self, e, fr)

    def e_DictComp(self, e, fr):
        from loops import run_dictcomp
        return run_dictcomp(self, e, fr)

    def e_Yield(self, e, fr):
        self.e_yield(e, fr)
        return NONE

    def e_YieldFrom(self, e, fr):
        self.e_yield(e, fr)
        return NONE

    def e_yield(self, e, fr):
        o = fr.env["@yield"]
        if isinstance(e, ast.Yield):
            v = self.ev(e.value, fr) if e.value else NONE
            self.models.list_append(self, o, v)
        else:
            self.models.list_extend(self, o, self.ev(e.value, fr))

    def e_Await(self, e, fr):
        return self.unknown("await")

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.env:
            if e.args:
                c = self.ev(e.args[0], fr)
                s = self.ev(e.args[1], fr)
                return mk("super", c, s)
            f = fr
            while f is not None and (f.func is None or f.func.owner is None):
                f = f.closure
            first = f.func.node.args.args[0].arg
            return mk("super", py(f.func.owner), f.env[first])
        fn = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = restrict(self.ev(a.value, fr), self.G)
                st = self.seqterm(v)
                it = seq_items(st) if st is not None else None
                if it is None and v.op == "obj" and st is not None and st.op == "ite":
                    n = {len(seq_items(l)) if l.op == "seq" and seq_items(l) is not None else -1 for l in leafset(st)}
                    if len(n) == 1 and -1 not in n:
                        it = [lift(lambda l, j=j: seq_items(l)[j], st) for j in range(n.pop())]
                if it is None and v.op == "ite":
                    n = {len(seq_items(self.seqterm(l)) or []) if self.seqterm(l) is not None else -1
                         for l in leafset(v)}
                    if len(n) == 1 and -1 not in n:
                        it = self.unpack(v, n.pop(), [False])
                if it is None:
                    if st is None and v.op == "x":
                        st = mk("symseq", v, "any", atom(mk("len", v)))
                    args.append(mk("star", st if st is not None else self.unknown("star")))
                else:
                    args += it
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                d = self.models.dict_items_concrete(self, v)
                if d is None:
                    kw["**"] = v
                else:
                    kw.update({cval(a): b for a, b in d if is_const(a)})
            else:
                kw[k.arg] = v
        self.node = e
        return self.call(fn, args, kw, e)

    def call(self, fn, args, kw, node):
        self.callcount += 1
        fn = restrict(fn, self.G)
        if fn.op == "ite":
            return self.cases([fn], lambda f: self.call(f, args, kw, node))
        self.node = node
        if fn.op == "py":
            o = fn.args[0]
            if isinstance(o, FuncVal):
                return self.call_func(o, args, kw, node)
            if isinstance(o, ClassVal):
                return self.construct(o, args, kw, node)
        if fn.op == "bm":
            s, f = fn.args
            if f.op == "py" and isinstance(f.args[0], FuncVal):
                fv = f.args[0]
                if fv.static:
                    return self.call_func(fv, args, kw, node)
                return self.call_func(fv, [s] + args, kw, node)
            return self.call(f, args, kw, node)
        if fn.op == "unk":
            return fn
        if fn.op == "partial":
            return self.call(fn.args[0], list(fn.args[1]) + args, {**dict(fn.args[2]), **kw}, node)
        if fn.op == "obj" and isinstance(self.obj(fn).cls, ClassVal):
            f, _ = self.obj(fn).cls.lookup("__call__")
            if f is not None:
                return self.call(mk("bm", fn, f), args, kw, node)
            self.problem("%s object is not callable" % self.obj(fn).cls.name)
            return self.unknown("call of object")
        return self.models.call(self, fn, args, kw, node)

    def bind_args(self, fv, args, kw, node):
        a = fv.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and not a.vararg:
            if not any(x.op == "star" for x in args):
                self.fails("TypeError", "%s() takes %d positional arguments but %d were given" % (
                    fv.qual(), len(names), len(args)))
            args = args[:len(names)]
        if any(x.op == "star" for x in args[:len(names)]):
            i = [x.op == "star" for x in args].index(True)
            st = args[i].args[0]
            rest = names[i:]
            for k, n in enumerate(rest):
                env[n] = self.seq_elem(st, num(k)) if st.op != "unk" else st
            args = args[:i]
            for n, v in zip(names, args):
                env[n] = v
        else:
            for n, v in zip(names, args):
                env[n] = v
            if a.vararg:
                extra = args[len(names):]
                if any(x.op == "star" for x in extra):
                    segs = []
                    for x in extra:
                        segs += (list(x.args[0].args) if x.args[0].op == "seq" else [mk("splice", TRUE, x.args[0])]) \
                            if x.op == "star" else [seg(x)]
                    env[a.vararg.arg] = seq(*segs)
                else:
                    env[a.vararg.arg] = mk("tup", "", *extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in env and k in names:
                self.fails("TypeError", "%s() got multiple values for argument %r" % (fv.qual(), k))
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.fails("TypeError", "%s() got an unexpected keyword argument %r" % (fv.qual(), k))
        if a.kwarg:
            d = self.alloc("dict", d=terms.seq())
            for k, v in extra.items():
                self.models.dict_set(self, d, const(k), v)
            env[a.kwarg.arg] = d
        for n, d in zip(names[len(names) - len(fv.defaults):], fv.defaults):
            if n not in env:
                env[n] = d
        for n in kwonly:
            if n not in env:
                if n in fv.kwdefaults:
                    env[n] = fv.kwdefaults[n]
        for n in names + kwonly:
            if n not in env:
                if "**" not in kw:
                    self.fails("TypeError", "%s() missing required argument %r" % (fv.qual(), n))
                env[n] = self.unknown("missing argument")
        return env

    def same_key(self, a, b, node):
        """Condition under which a cache takes two arguments for the same."""
        if a is b:
            return TRUE
        for x in (a, b):
            if x.op == "obj" and isinstance(self.obj(x).cls, ClassVal) and self.obj(x).cls.lookup("__eq__")[0] is None:
                return FALSE
        if {a.op, b.op} & {"unk"}:
            return batom("is", a, b)
        return self.truth(self.compare(ast.Eq(), a, b, node))

    def call_memo(self, fv, args, kw, node):
        key = list(args) + [x for k in sorted(kw) for x in (const(k), kw[k])]
        hit, val = FALSE, None
        G = self.G
        for k, g, v in fv.memo:
            if len(k) != len(key):
                continue
            c = and_(g, not_(hit))
            for a, b in zip(k, key):
                c = and_(c, self.same_key(a, b, node)) if c is not FALSE else c
            if and_(G, c) is FALSE:
                continue
            val = v if val is None else ite(c, v, val)
            hit = or_(hit, c)
        miss = and_(G, not_(hit))
        if miss is FALSE:
            return restrict(val, G)
        self.G = miss
        r = self.call_func(fv, args, kw, node, True)
        if not self.loops and len(fv.memo) < 12:
            fv.memo.append((key, self.G, r))
        self.G = or_(self.G, and_(G, hit))
        return restrict(r if val is None else ite(hit, val, r), self.G)

    def call_func(self, fv, args, kw, node, inside=False):
        if fv.memo is not None and not inside:
            return self.call_memo(fv, args, kw, node)
        if sum(1 for f in self.calls if f is fv) > 4 or len(self.calls) > 60:
            return self.unknown("recursion in " + fv.qual())
        env = self.bind_args(fv, args, kw, node)
        if self.is_opaque(fv):
            self.inlined.add(fv)
            a = [mk("rec", fv.qual())] + [self.deep(v) for _, v in sorted(env.items())]
            return mk("x", None, "opaque", *a)
        self.inlined.add(fv)
        fr = Frame(fv, fv.module, fv.closure)
        fr.env.update(env)
        self.frames.append(fr)
        self.calls.append(fv)
        savenode = self.node
        try:
            if isinstance(fv.node, ast.Lambda):
                r = self.ev(fv.node.body, fr)
                return r
            if fv.isgen:
                y = self.alloc("list", seq=seq())
                fr.env["@yield"] = y
            self.block(fv.node.body, fr)
            self.G = or_(self.G, fr.retg) if fr.retg is not FALSE else self.G
            if fv.isgen:
                return restrict(self.obj(y).fields["seq"], self.G)
            if fr.retg is FALSE:
                return NONE
            # fall-through returns None
            v = ite(fr.retg, fr.ret, NONE)
            return restrict(v, self.G)
        finally:
            self.frames.pop()
            self.calls.pop()
            self.node = savenode

    def is_opaque(self, fv):
        """The numeric construction of the dodecahedron: pure functions of
        their arguments that are not looked into (see DESIGN.md)."""
        if not fv.module.name.endswith(".detail.dodecahedron") or not isinstance(fv.node, ast.FunctionDef):
            return False
        if fv.owner is None and fv.closure is None:
            return True
        return any(isinstance(n, ast.While) for n in ast.walk(fv.node))

    def construct(self, c, args, kw, node):
        if c.namedtuple is not None:
            names = [n for n, _ in c.namedtuple]
            vals = {}
            if any(a.op == "star" for a in args):
                st = [a for a in args if a.op == "star"][0].args[0]
                if st.op == "unk":
                    return st
                args = [self.seq_elem(st, num(i)) for i in range(len(names))]
            if len(args) > len(names):
                self.problem("too many arguments for " + c.name)
            for n, v in zip(names, args):
                vals[n] = v
            for k, v in kw.items():
                if k not in names:
                    self.problem("%s has no field %r" % (c.name, k))
                vals[k] = v
            for n, d in c.namedtuple:
                if n not in vals:
                    if d is None:
                        self.problem("%s missing field %r" % (c.name, n))
                        d = self.unknown("missing field")
                    vals[n] = d
            return mk("tup", c.name, *[vals[n] for n in names])
        if any(self._extsub(b.replace("builtins.", ""), "BaseException") for b in c.extbases()
               if b.startswith("builtins.")):
            return mk("exc", py(c))
        if c.isconfig():
            return self.models.make_default_config(self, c, kw)
        o = self.alloc(c)
        new, _ = c.lookup("__new__")
        init, owner = c.lookup("__init__")
        if self.models.opaque_class(self, c):
            return self.models.opaque_construct(self, c, o, args, kw, node)
        if init is not None:
            self.call(mk("bm", o, init), args, kw, node)
        elif c.dataclass:
            fields = []
            for k in reversed(c.mro()):
                if isinstance(k, ClassVal):
                    for st in k.node.body:
                        if isinstance(st, ast.AnnAssign):
                            fields.append(st.target.id)
            for n, v in zip(fields, args):
                self.setf(o, n, v)
            for k, v in kw.items():
                if k not in fields:
                    self.problem("%s has no field %r" % (c.name, k))
                self.setf(o, k, v)
            for n in fields:
                if n not in self.obj(o).fields and n in c.attrs:
                    self.setf(o, n, c.attrs[n])
            pi, _ = c.lookup("__post_init__")
            if pi is not None:
                self.call(mk("bm", o, pi), [], {}, node)
        else:
            eb = [b for b in c.extbases() if b not in ("builtins.object",)]
            if eb:
                self.models.ext_init(self, o, eb, args, kw)
            elif args or kw:
                self.problem("%s() takes no arguments" % c.name)
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, node):
        o = restrict(o, self.G)
        if o.op == "ite":
            if self.numish(o) or self.boolish(o):
                return lift(lambda u: self.getattr(u, name, node), o)
            return self.cases([o], lambda u: self.getattr(u, name, node))
        if o.op == "mod":
            m = self.modules[o.args[0]]
            if name in m.env:
                return m.env[name]
            if o.args[0] + "." + name in self.files:
                return self.import_module(o.args[0] + "." + name)
            if name == "__name__":
                return const(m.name)
            self.problem("module %s has no attribute %r" % (m.name, name))
            return self.unknown("module attribute")
        if o.op == "ext":
            return self.models.ext_attr(self, o, name)
        if o.op == "py":
            c = o.args[0]
            if isinstance(c, ClassVal):
                return self.class_attr(c, name, o)
            if isinstance(c, PropVal):
                if name in ("setter", "getter", "deleter"):
                    return mk("propset", o, name)
                return self.unknown("property attribute")
            if isinstance(c, FuncVal):
                if name == "__name__":
                    return const(c.name)
                return mk("x", None, "funcattr", const(c.name), const(name))
            return self.models.py_attr(self, o, c, name)
        if o.op == "super":
            c, s = o.args
            inst = self.obj(s).cls if s.op == "obj" else (s.args[0] if s.op == "py" else None)
            if inst is None:
                return self.unknown("super")
            v, owner = inst.lookup(name, after=c.args[0])
            if v is not None:
                if v.op == "py" and isinstance(v.args[0], FuncVal):
                    return mk("bm", s, v)
                if v.op == "py" and isinstance(v.args[0], PropVal):
                    return self.call(v.args[0].fget, [s], {}, node)
                return v
            return mk("extsuper", s, name)
        if o.op == "obj":
            ob = self.obj(o)
            if isinstance(ob.cls, ClassVal):
                return self.inst_attr(o, ob, name, node)
            return self.models.obj_attr(self, o, ob.cls, name)
        if o.op == "tup" and o.args[0]:
            return self.tup_attr(o, name, node)
        return self.models.value_attr(self, o, name)

    def tup_attr(self, o, name, node):
        c = self.named_class(o.args[0])
        if c is not None:
            names = [n for n, _ in c.namedtuple]
            if name in names:
                return o.args[1 + names.index(name)]
            v, _ = c.lookup(name)
            if v is not None:
                if v.op == "py" and isinstance(v.args[0], FuncVal):
                    return mk("bm", py(c) if v.args[0].classm else o, v)
                if v.op == "py" and isinstance(v.args[0], PropVal):
                    return self.call(v.args[0].fget, [o], {}, node)
                return v
            if name in ("_replace", "_asdict", "_fields", "index", "count"):
                return mk("bmx", o, name)
            self.problem("%s has no attribute %r" % (c.name, name))
            return self.unknown("attribute")
        return self.models.value_attr(self, o, name)

    def named_class(self, name):
        for m in self.modules.values():
            v = m.env.get(name)
            if v is not None and v.op == "py" and isinstance(v.args[0], ClassVal) and v.args[0].namedtuple is not None:
                return v.args[0]
        return None

    def class_attr(self, c, name, o):
        v, owner = c.lookup(name)
        if v is not None:
            if v.op == "py" and isinstance(v.args[0], FuncVal) and v.args[0].classm:
                return mk("bm", o, v)
            return v
        if name in ("__name__", "__qualname__"):
            return const(c.name)
        if name == "__module__":
            return const(c.module.name)
        if name == "__mro__":
            return mk("tup", "", *[py(k) for k in c.mro() if isinstance(k, ClassVal)])
        if name in ("__doc__", "__dict__"):
            return mk("x", None, name, const(c.name))
        if name in ("__init__", "__new__", "__eq__", "__hash__", "__ne__", "__repr__", "__str__", "__getitem__",
                    "__iter__", "__len__", "__setattr__"):
            if c.extbases() or name in ("__init__", "__new__", "__eq__", "__hash__", "__ne__", "__repr__", "__str__",
                                        "__setattr__"):
                return mk("ext", "object." + name)
        if c.extbases():
            return mk("ext", c.extbases()[0] + "." + name)
        self.problem("class %s has no attribute %r" % (c.name, name))
        return self.unknown("class attribute " + name)

    def inst_attr(self, o, ob, name, node):
        c = ob.cls
        v, owner = c.lookup(name)
        if v is not None and v.op == "py" and isinstance(v.args[0], PropVal):
            if v.args[0].cached and not self.loops:
                return self.cached_attr(o, name, v.args[0], node)
            return self.call(v.args[0].fget, [o], {}, node)
        if v is not None and v.op == "py" and isinstance(v.args[0], FieldVal):
            f = self.getf(o, name)
            return f if f is not None else self.unknown("config field " + name)
        f = self.getf(o, name)
        if f is not None:
            if f.op == "ite" and UNDEF in leafset(f):
                alt = None
                if v is not None:
                    alt = v
                else:
                    self.problem("attribute %r of %s may be unset" % (name, c.name))
                    alt = unk("unset attribute " + name)
                f = lift(lambda x: x if x is not UNDEF else alt, f)
            elif f is UNDEF:
                f = None
        if f is not None:
            return f
        if v is not None:
            if v.op == "py" and isinstance(v.args[0], FuncVal):
                if v.args[0].classm:
                    return mk("bm", py(c), v)
                if v.args[0].static:
                    return v
                return mk("bm", o, v)
            return v
        if name == "__class__":
            return py(c)
        if name == "__dict__":
            return mk("objdict", o)
        r = self.models.inst_ext_attr(self, o, c, name)
        if r is not None:
            return r
        ga, _ = c.lookup("__getattr__")
        if ga is not None:
            return self.call(mk("bm", o, ga), [const(name)], {}, node)
        return self.fails("AttributeError", "%s object has no attribute %r" % (c.name, name))

    def cached_attr(self, o, name, p, node):
        G = self.G
        f = self.getf(o, name)
        if f is None:
            have = FALSE
        else:
            have = lift(lambda u: terms.boolc(u is not UNDEF), f)
        if and_(G, not_(have)) is FALSE:
            return f
        self.G = and_(G, not_(have))
        r = self.call(p.fget, [o], {}, node)
        self.setf(o, name, r)
        self.G = or_(self.G, and_(G, have))
        return restrict(r if f is None else ite(have, f, r), self.G)

    def setattr(self, o, name, v, node):
        o = restrict(o, self.G)
        if o.op == "ite":
            return self.cases([o], lambda u: self.setattr(u, name, v, node))
        if o.op == "obj":
            ob = self.obj(o)
            if isinstance(ob.cls, ClassVal):
                d, _ = ob.cls.lookup(name)
                if d is not None and d.op == "py" and isinstance(d.args[0], PropVal):
                    if d.args[0].fset is None:
                        self.problem("property %r of %s has no setter" % (name, ob.cls.name))
                        return
                    self.call(d.args[0].fset, [o, v], {}, node)
                    return
                if d is not None and d.op == "py" and isinstance(d.args[0], FieldVal):
                    v = self.models.coerce_field(self, d.args[0], v)
            self.setf(o, name, v)
            return
        if o.op == "py" and isinstance(o.args[0], ClassVal):
            self.writes.append((o.args[0], name, self.G, v, o.args[0].attrs.get(name), self.loc()))
            o.args[0].attrs[name] = v
            return
        if o.op == "mod":
            self.writes.append((o.args[0], name, self.G, v, None, self.loc()))
            return
        self.event("setattr", [o, const(name), v], {})

    # ------------------------------------------------------------ items
    def getitem(self, o, k, node):
        o, k = restrict(o, self.G), restrict(k, self.G)
        if o.op == "ite" or (k.op == "ite" and not self.numish(k) and not self.boolish(k)):
            return self.cases([o, k], lambda a, b: self.getitem(a, b, node))
        if o.op == "obj" and isinstance(self.obj(o).cls, ClassVal):
            f, _ = self.obj(o).cls.lookup("__getitem__")
            if f is not None:
                return self.call(mk("bm", o, f), [k], {}, node)
            r = self.models.inst_ext_getitem(self, o, k)
            if r is not None:
                return r
            self.problem("%s object is not subscriptable" % self.obj(o).cls.name)
            return self.unknown("subscript")
        return self.models.getitem(self, o, k, node)

    def setitem(self, o, k, v, node):
        o, k = restrict(o, self.G), restrict(k, self.G)
        if o.op == "ite" or (k.op == "ite" and not self.numish(k) and not self.boolish(k)):
            return self.cases([o, k], lambda a, b: self.setitem(a, b, v, node))
        if o.op == "obj" and isinstance(self.obj(o).cls, ClassVal):
            f, _ = self.obj(o).cls.lookup("__setitem__")
            if f is not None:
                return self.call(mk("bm", o, f), [k, v], {}, node)
        return self.models.setitem(self, o, k, v, node)

    # ------------------------------------------------------------ misc
    def event(self, name, args, kw, result=None):
        e = Event(guard=self.G, loops=tuple(self.loops), ctx=tuple(self.ctx), name=name,
                  args=[self.freeze(a) for a in args], kwargs={k: self.freeze(v) for k, v in kw.items()},
                  loc=self.loc(), result=result, func=self.calls[-1].qual() if self.calls else None)
        self.events.append(e)
        return e

    def freeze(self, v):
        """Immutable term for a value: containers and geometry objects by
        content, instances of package classes by reference."""
        return self.expand(v, (), {}, (), False)

    def deep(self, v, skip=()):
        """Like freeze, but also expands instances of package classes."""
        return self.expand(v, (), {}, tuple(skip), True)

    def expand(self, v, path, env, skip, full):
        """Replace object references by the objects' contents.  `env` maps
        the loop indices of enclosing comprehensions to the index under
        which they are being rebuilt."""
        if not self.has_objs(v):
            return v
        memo = {}

        def arg(x):
            if isinstance(x, T):
                return go(x)
            if isinstance(x, tuple):
                return tuple(arg(y) for y in x)
            return x

        def go(u):
            r = memo.get(u)
            if r is None:
                r = memo[u] = go2(u) if self.has_objs(u) else u
            return r

        def go2(u):
            if u.op == "obj":
                return self.expand_obj(u, path, env, skip, full)
            if u.op == "comp":
                cb = comp_binder(u)
                b = fresh_binder(u.args[1])
                ba = single_atom(b)
                env2 = dict(env)
                for t, cs in self.origin.items():
                    if cb in cs:
                        env2[t] = b
                segs = [self.expand(subst(x, {cb: b}), path, env2, skip, full) for x in u.args[3:]]
                from loops import comp
                return comp(self, b, u.args[1], subst(u.args[2], {cb: b}), segs)
            if u.op == "num":
                return subst(u, {a: self._keep(mk(a.op, *[arg(x) for x in a.args])) for a in terms.atoms_of(u)
                                 if self.has_objs(a)})
            if u.op == "ite":
                return ite(atom_bdd(mk(u.args[0].op, *[arg(x) for x in u.args[0].args])), go(u.args[1]), go(u.args[2]))
            return mk(u.op, *[arg(x) for x in u.args])
        return go(v)

    def _keep(self, a):
        return atom(a)

    def expand_obj(self, u, path, env, skip, full):
        o = self.obj(u)
        internal = isinstance(o.cls, ClassVal)
        if internal and not full:
            return u
        if u in path:
            return mk("cycle", path.index(u)) if full else u
        if len(path) > 14:
            return mk("deep")
        fs = []
        m = {x: env[x] for x in o.loops if x in env}
        for k in sorted(o.fields):
            if k in skip:
                continue
            x = restrict(o.fields[k], self.G)
            if m:
                x = subst(x, m)
            x = self.expand(x, path + (u,), env, skip, full)
            fs.append(mk("fld", k, x) if internal else x)
        if internal:
            return mk("rec", o.cls.name, *fs)
        if o.cls in ("list", "dict"):
            return fs[0]
        return mk("tup", "@" + str(o.cls), *fs)

    # ------------------------------------------------------------ driving
    def run(self, fn, args=(), kw=None, node=None):
        """Call fn at top level; returns Result."""
        saveG, self.G = self.G, TRUE
        saveE, self.excs = self.excs, [[]]
        saveL, self.loops = self.loops, []
        try:
            v = self.call(fn, list(args), dict(kw or {}), node)
            g = self.G
            ex = self.excs[-1]
        finally:
            self.G, self.excs, self.loops = saveG, saveE, saveL
        return Result(restrict(v, g) if g is not FALSE else v, g, ex)

    def method(self, o, name, *args, **kw):
        """Run o.name(*args, **kw) at top level."""
        saveE, self.excs = self.excs, [[]]
        try:
            f = self.getattr(o, name, None)
        finally:
            self.excs = saveE
        return self.run(f, args, kw)

    def attr(self, o, name):
        """Value of an attribute or property at top level."""
        saveG, self.G = self.G, TRUE
        saveE, self.excs = self.excs, [[]]
        try:
            v = self.getattr(o, name, None)
            g, ex = self.G, self.excs[-1]
        finally:
            self.G, self.excs = saveG, saveE
        return Result(restrict(v, g) if g is not FALSE else v, g, ex)

    def cls(self, name, module=None):
        self.load_all()
        for n, m in sorted(self.modules.items()):
            v = m.env.get(name)
            if v is not None and v.op == "py" and isinstance(v.args[0], ClassVal):
                return v.args[0]
        raise AnalysisError("class %s not found in the package" % name)

    def func(self, name, module=None):
        self.load_all()
        for n, m in sorted(self.modules.items()):
            v = m.env.get(name)
            if v is not None and v.op == "py" and isinstance(v.args[0], FuncVal):
                return v
        raise AnalysisError("function %s not found in the package" % name)

    def classes(self):
        self.load_all()
        out = []
        for n, m in sorted(self.modules.items()):
            for v in m.env.values():
                if v.op == "py" and isinstance(v.args[0], ClassVal) and v.args[0].module is m and v.args[0] not in out:
                    out.append(v.args[0])
        return out


class _ModFrame:
    def __init__(self, m):
        self.env = m.env
