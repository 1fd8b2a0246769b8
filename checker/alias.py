"""Which public methods of a class may return the arrays it keeps: a may-alias
analysis on the syntax tree, for code whose values are opaque otherwise."""
import ast

CLEAN, ROOT, ELEMS, VEC = "clean", "root", "elems", "vec"
# CLEAN  nothing of the object's; ROOT  a list (or matrix) that the object
# keeps; ELEMS  another list of arrays that it keeps; VEC  an array it keeps
VIEWS = ("asarray", "asanyarray", "atleast_1d", "ravel", "reshape", "squeeze", "view", "transpose", "ascontiguousarray",
         "asfarray", "T", "flat", "real", "swapaxes")
LISTS = ("list", "tuple", "sorted", "reversed", "iter", "enumerate", "zip", "filter", "set", "next", "chain", "deque")
CHANGES = ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "fill", "popleft")
FIXED = ("setflags", "flags", "writeable")


class Unclear(Exception):
    pass


class Alias:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields
        self.funcs = dict(cls.module.env)
        self.depth = 0
        self.memo = {}
        self.modified = []      # places that change what the object keeps

    # one value for each of the possibly returned items
    def method(self, f):
        return self.call(f, [{"self"}] if not f.static else [])

    def call(self, f, args, kw=()):
        from interp import FuncVal
        if self.depth > 12:
            raise Unclear("recursion")
        if f.memo is not None:
            raise Unclear("cached " + f.name)
        node = f.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {n: {CLEAN} for n in names + [x.arg for x in a.kwonlyargs]}
        env.update(zip(names, args))
        env.update((k, v) for k, v in kw if k in env)
        key = (id(node), tuple(sorted((k, tuple(sorted(map(str, v)))) for k, v in env.items())))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {CLEAN}
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                r = self.expr(node.body, env)
            else:
                out = []
                self.block(node.body, env, out)
                r = set().union(*out) if out else {CLEAN}
        finally:
            self.depth -= 1
        self.memo[key] = r
        return r

    # ---------------------------------------------------------- statements
    def block(self, body, env, out):
        for s in body:
            self.stmt(s, env, out)

    def join(self, env, *others):
        for o in others:
            for k, v in o.items():
                env[k] = env.get(k, set()) | v

    def stmt(self, s, env, out):
        if isinstance(s, ast.Return):
            if s.value is not None:
                out.append(self.expr(s.value, env))
        elif isinstance(s, ast.Expr):
            v = self.expr(s.value, env)
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                out.append(v)
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.bind(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.bind(s.target, self.expr(s.value, env), env, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.expr(s.value, env)
            t = s.target
            if isinstance(t, ast.Name):
                o = env.get(t.id, {CLEAN})
                if o & {ROOT, VEC}:
                    self.modified.append(s.lineno)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                if isinstance(t, ast.Attribute) and self.expr(t, env) & {ROOT, VEC}:
                    self.modified.append(s.lineno)
                elif isinstance(t, ast.Subscript):
                    o = self.expr(t.value, env)
                    if o & {ROOT, VEC} or self.expr(t, env) & {VEC}:
                        self.modified.append(s.lineno)
            if isinstance(s.target, ast.Name):
                o = env.get(s.target.id, {CLEAN})
                if o & {ROOT, ELEMS} or v & {ROOT, ELEMS}:
                    env[s.target.id] = o | ({ELEMS} if v & {ROOT, ELEMS, VEC} else set())
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.expr(s.iter, env)
            for _ in range(4):
                self.bind(s.target, self.each(it), env, None)
                self.block(s.body, env, out)
            self.block(s.orelse, env, out)
        elif isinstance(s, ast.While):
            for _ in range(4):
                e = dict(env)
                self.block(s.body, e, out)
                self.join(env, e)
            self.block(s.orelse, env, out)
        elif isinstance(s, ast.If):
            a, b = dict(env), dict(env)
            self.block(s.body, a, out)
            self.block(s.orelse, b, out)
            env.clear()
            self.join(env, a, b)
        elif isinstance(s, ast.Try):
            e = dict(env)
            self.block(s.body, e, out)
            self.join(env, e)
            for h in s.handlers:
                e = dict(env)
                self.block(h.body, e, out)
                self.join(env, e)
            self.block(s.orelse, env, out)
            self.block(s.finalbody, env, out)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, None)
            self.block(s.body, env, out)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and self.expr(t.value, env) & {ROOT, VEC}:
                    self.modified.append(s.lineno)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Match)):
            raise Unclear("line %d" % s.lineno)

    def bind(self, t, v, env, node):
        if isinstance(t, ast.Name):
            env[t.id] = set(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(t.elts):
                for a, b in zip(t.elts, node.elts):
                    self.bind(a, self.expr(b, env), env, b)
                return
            tup = [x for x in v if isinstance(x, tuple)]
            for i, a in enumerate(t.elts):
                w = self.each(v - set(tup))
                for x in tup:
                    w |= set(x[i]) if i < len(x) else {CLEAN}
                self.bind(a, w or {CLEAN}, env, None)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, {ELEMS} if v & {VEC} else {CLEAN}, env, None)
        elif isinstance(t, ast.Subscript):
            if self.expr(t.value, env) & {VEC, ROOT}:
                self.modified.append(t.lineno)
            if v & {VEC, ROOT, ELEMS} and isinstance(t.value, ast.Name):
                n = t.value.id
                env[n] = env.get(n, set()) | {ELEMS}

    def each(self, v):
        out = set()
        for x in v:
            if isinstance(x, tuple):
                for y in x:
                    out |= set(y)
            else:
                out.add({ROOT: VEC, ELEMS: VEC}.get(x, CLEAN))
        return out or {CLEAN}

    # --------------------------------------------------------- expressions
    def expr(self, n, env):
        if isinstance(n, ast.Name):
            return set(env.get(n.id, {CLEAN}))
        if isinstance(n, ast.Attribute):
            o = self.expr(n.value, env)
            if "self" in o:
                if n.attr in self.fields:
                    return {ROOT} if self.fields[n.attr] != "plain" else {CLEAN}
                return self.member(n.attr)
            if n.attr in VIEWS and o & {VEC, ROOT}:
                return o & {VEC, ROOT}
            return {CLEAN}
        if isinstance(n, ast.Subscript):
            o = self.expr(n.value, env)
            self.expr(n.slice, env)
            out = set()
            for x in o:
                if isinstance(x, tuple):
                    i = n.slice.value if isinstance(n.slice, ast.Constant) else None
                    if isinstance(i, int) and -len(x) <= i < len(x):
                        out |= set(x[i])
                    else:
                        out |= self.each({x})
                elif x == VEC:
                    out.add(VEC if isinstance(n.slice, ast.Slice) else CLEAN)
                elif x in (ROOT, ELEMS):
                    out.add(ELEMS if isinstance(n.slice, ast.Slice) else VEC)
                else:
                    out.add(CLEAN)
            return out
        if isinstance(n, ast.Tuple):
            return {tuple(frozenset(self.expr(e, env)) for e in n.elts)}
        if isinstance(n, (ast.List, ast.Set)):
            out = {CLEAN}
            for e in n.elts:
                v = self.expr(e.value if isinstance(e, ast.Starred) else e, env)
                v = v if not isinstance(e, ast.Starred) else self.each(v)
                if self.holds(v):
                    out = {ELEMS}
            return out
        if isinstance(n, ast.Dict):
            return {ELEMS} if any(self.holds(self.expr(v, env)) for v in n.values) else {CLEAN}
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                self.bind(g.target, self.each(self.expr(g.iter, e)), e, None)
            v = self.expr(n.value if isinstance(n, ast.DictComp) else n.elt, e)
            # tuples made to be taken apart again
            if any(isinstance(x, tuple) for x in v):
                return {ELEMS} if self.holds(v) else {CLEAN}
            return {ELEMS} if v & {VEC, ROOT, ELEMS} else {CLEAN}
        if isinstance(n, ast.BinOp):
            v = self.expr(n.left, env) | self.expr(n.right, env)
            if isinstance(n.op, (ast.Add, ast.Mult)) and v & {ROOT, ELEMS}:
                return {ELEMS} if "matrix" not in self.fields.values() else {CLEAN}
            return {CLEAN}
        if isinstance(n, ast.IfExp):
            return self.expr(n.body, env) | self.expr(n.orelse, env)
        if isinstance(n, ast.BoolOp):
            return set().union(*[self.expr(v, env) for v in n.values])
        if isinstance(n, ast.NamedExpr):
            v = self.expr(n.value, env)
            self.bind(n.target, v, env, None)
            return v
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            v = self.expr(n.value, env) if n.value is not None else {CLEAN}
            return ({ELEMS} if self.holds(v) else {CLEAN}) if isinstance(n, ast.Yield) else v
        if isinstance(n, ast.Starred):
            return self.expr(n.value, env)
        if isinstance(n, ast.Call):
            return self.calling(n, env)
        return {CLEAN}

    def holds(self, v):
        return any(x in (VEC, ROOT, ELEMS) or isinstance(x, tuple) and any(self.holds(y) for y in x) for x in v)

    def member(self, name):
        from interp import PropVal, FuncVal
        v, owner = self.cls.lookup(name)
        if v is not None and v.op == "py" and isinstance(v.args[0], PropVal):
            if v.args[0].cached:
                raise Unclear("cached " + name)
            return self.call(v.args[0].fget, [{"self"}])
        return {CLEAN}

    def calling(self, n, env):
        from interp import FuncVal
        f = n.func
        args = [self.expr(a, env) for a in n.args]
        kw = [(k.arg, self.expr(k.value, env)) for k in n.keywords if k.arg]
        if isinstance(f, ast.Attribute):
            o = self.expr(f.value, env)
            if "self" in o:
                v, owner = self.cls.lookup(f.attr)
                if v is not None and v.op == "py" and isinstance(v.args[0], FuncVal):
                    g = v.args[0]
                    return self.call(g, ([] if g.static else [{"self"}]) + args, kw)
                return {CLEAN}
            if f.attr in FIXED:
                raise Unclear("line %d" % n.lineno)
            if f.attr in CHANGES and o & {ROOT} or f.attr in ("sort", "fill", "put", "itemset", "partition") and (
                    o & {VEC}):
                self.modified.append(n.lineno)
            for k in n.keywords:
                if k.arg == "out" and self.expr(k.value, env) & {ROOT, VEC}:
                    self.modified.append(n.lineno)
            if f.attr in ("shuffle", "place", "putmask", "copyto", "fill_diagonal") and args and (
                    args[0] & {ROOT, VEC}):
                self.modified.append(n.lineno)
            if f.attr in ("append", "extend", "insert", "add", "appendleft") and isinstance(f.value, ast.Name):
                if args and self.holds(args[-1]):
                    env[f.value.id] = env.get(f.value.id, set()) | {ELEMS}
                return {CLEAN}
            if f.attr == "deepcopy":
                return {CLEAN}
            if f.attr == "copy":
                v = args[0] if isinstance(f.value, ast.Name) and f.value.id == "copy" and args else o
                return {ELEMS} if v & {ROOT, ELEMS} and "matrix" not in self.fields.values() else {CLEAN}
            if f.attr == "pop":
                return self.each(o)
            if f.attr in VIEWS:
                if o & {VEC, ROOT}:
                    return o & {VEC, ROOT}
                return args[0] & {VEC} or {CLEAN} if args else {CLEAN}
            if f.attr in ("array", "asarray", "asanyarray") and any(
                    k == "copy" for k, _ in kw) and args and args[0] & {VEC}:
                raise Unclear("line %d" % n.lineno)
            if f.attr in LISTS + ("chain", "from_iterable"):
                return {ELEMS} if any(a & {ROOT, ELEMS} for a in args) else {CLEAN}
            if f.attr in ("values", "items", "get", "setdefault") and o & {ROOT, ELEMS}:
                return {ELEMS, VEC} & ({VEC} if f.attr == "get" else {ELEMS})
            return {CLEAN}
        if isinstance(f, ast.Name):
            v = self.funcs.get(f.id)
            if f.id in env:
                v = None
            if v is not None and getattr(v, "op", None) == "py" and isinstance(v.args[0], FuncVal):
                return self.call(v.args[0], args, kw)
            if f.id in ("enumerate", "zip"):
                return {ELEMS} if any(a & {ROOT, ELEMS} for a in args) else {CLEAN}
            if f.id == "next":
                return self.each(args[0]) if args else {CLEAN}
            if f.id in ("max", "min"):
                return self.each(args[0]) if len(args) == 1 else set().union(*args) if args else {CLEAN}
            if f.id == "map" and args and len(n.args) > 1:
                if any(self.holds(a) for a in args[1:]):
                    raise Unclear("line %d" % n.lineno)
            if f.id in LISTS:
                return {ELEMS} if any(a & {ROOT, ELEMS} or any(isinstance(x, tuple) and self.holds([x]) for x in a)
                                      for a in args) else {CLEAN}
        return {CLEAN}


def fields_of(cls):
    """The fields that hold arrays: list, matrix (one array) or plain."""
    out = {}
    for k in cls.mro():
        if not hasattr(k, "attrs"):
            continue
        for v in k.attrs.values():
            if getattr(v, "op", None) != "py" or not hasattr(v.args[0], "node"):
                continue
            for s in ast.walk(v.args[0].node):
                if not isinstance(s, ast.Assign):
                    continue
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        out[t.attr] = kind(s.value)
    return out


def kind(n):
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("numpy", "np"):
            return "matrix"
        if isinstance(f, ast.Name) and f.id in ("bool", "int", "float", "str", "len"):
            return "plain"
        return "list"
    if isinstance(n, (ast.List, ast.ListComp, ast.Tuple, ast.Name)):
        return "list"
    return "plain"
