"""Threading of a value through the call graph: which calls pass on the value a function was given.

A forward dataflow analysis of every function, over the values its variables may hold:
GIVEN k (the value received, plus the integer k), or anything else. Branches which are only taken when
nothing was received (`x is None`, `not x`) are left out: the analysis is about calls that are given a value.
"""

from __future__ import annotations

import ast

from .program import Class, Func

OTHER = "other"
_imports = {}


def resolve(prog, e, func, module):
    """What a name or attribute denotes, with the imports made inside functions."""
    if isinstance(e, ast.Name):
        f = func
        while f is not None:
            if f not in _imports:
                _imports[f] = {a.asname or a.name.split(".")[0]: (n.module + "." + a.name if isinstance(n, ast.ImportFrom) else a.name if a.asname else a.name.split(".")[0]) for n in ast.walk(f.node) if isinstance(n, (ast.Import, ast.ImportFrom)) and getattr(n, "level", 0) == 0 for a in n.names}
            if e.id in _imports[f]:
                return prog.lookup_dotted(_imports[f][e.id])
            f = f.parent
        return prog.resolve_name(module, e.id)
    if isinstance(e, ast.Attribute):
        r = resolve(prog, e.value, func, module)
        if r is None:
            return None
        if r[0] == "module":
            return prog.resolve_name(r[1], e.attr) or ("ext", f"{r[1].name}.{e.attr}")
        if r[0] == "ext":
            return ("ext", f"{r[1]}.{e.attr}")
        if r[0] == "class":
            return prog._class_attr(r[1], e.attr)
    return None


class Thread:
    """One kind of threaded value.

    is_param(func, arg): whether a parameter receives it.
    keeps: dotted functions or package functions that give back their argument when given one.
    """

    def __init__(self, prog, is_param, keeps=(), numeric=False):
        self.prog, self.is_param, self.keeps, self.numeric = prog, is_param, set(keeps), numeric
        self.methods = {}
        for c in prog.classes.values():
            for f in c.methods.values():
                self.methods.setdefault(f.name, []).append(f)
        self.extra = {}  # (func, parameter) -> value, for parameters which only receive it
        self.attrs = {}  # attribute -> values assigned
        self.types = Types(prog)

    # ---- the analysis of one function
    def run(self):
        for _ in range(6):
            before = (dict(self.extra), {k: set(v) for k, v in self.attrs.items()})
            self.calls, self.returns = [], {}
            for f in self.functions():
                if f.parent is None:
                    self.function(f)
            for m in self.prog.modules.values():
                self.cur, self.depth, self.top = None, 0, m
                self.module = m
                env = {}
                for s in m.tree.body:
                    if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        self.stmt(s, env)
                    elif isinstance(s, ast.ClassDef):
                        for x in s.body:
                            if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                                self.stmt(x, env)
            if before == (self.extra, self.attrs):
                break
        return self

    def functions(self):
        for f in list(self.prog.funcs.values()):
            if not f.is_overload and not isinstance(f.node, ast.Lambda) and f.module.name.split(".")[0] == "graphix":
                yield f

    def params(self, f):
        """name -> value held on entry, of the parameters receiving the value."""
        out = {}
        for a in f.params:
            if self.is_param(f, a):
                out[a.arg] = 0
            elif (f, a.arg) in self.extra:
                out[a.arg] = self.extra[f, a.arg]
        return out

    def function(self, f, outer=None, depth=0):
        saved = getattr(self, "cur", None), getattr(self, "depth", 0), getattr(self, "module", None)
        self.cur, self.depth, self.module = f, depth, f.module
        env = dict(outer or {})
        for a in f.params:
            env.pop(a.arg, None)
        env.update(self.params(f))
        self.block(f.node.body, env)
        self.cur, self.depth, self.module = saved

    def block(self, body, env):
        """Runs statements; returns the environment after them, None when the end is not reached."""
        for s in body:
            env = self.stmt(s, env)
            if env is None:
                return None
        return env

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: (v if b.get(k, OTHER) == v else OTHER) for k, v in a.items()} | {k: OTHER for k in b.keys() - a.keys()}

    def stmt(self, s, env):
        ev = self.ev
        match s:
            case ast.Assign():
                v = ev(s.value, env)
                for t in s.targets:
                    self.bind(t, s.value, v, env)
            case ast.AnnAssign():
                if s.value is not None:
                    self.bind(s.target, s.value, ev(s.value, env), env)
            case ast.AugAssign():
                v = ev(ast.BinOp(ast.copy_location(self.load(s.target), s.target), s.op, s.value), env)
                self.bind(s.target, None, v, env)
            case ast.Return():
                if s.value is not None:
                    v = ev(s.value, env)
                    if self.cur is not None:
                        self.returns.setdefault(self.cur, []).append((s, v))
                return None
            case ast.Raise():
                for x in (s.exc, s.cause):
                    if x is not None:
                        ev(x, env)
                return None
            case ast.Continue() | ast.Break():
                return None
            case ast.If():
                k = self.given_test(s.test, env)
                ev(s.test, env)
                a = self.block(s.body, dict(env)) if k is not False else None
                b = self.block(s.orelse, dict(env)) if k is not True else None
                return self.join(a, b)
            case ast.For() | ast.AsyncFor():
                ev(s.iter, env)
                self.bind(s.target, None, OTHER, env)
                cur = env
                for _ in range(3):
                    out = self.block(s.body, dict(cur))
                    new = self.join(cur, out)
                    if new == cur:
                        break
                    cur = new
                env = cur
                return self.block(s.orelse, env)
            case ast.While():
                cur = env
                for _ in range(3):
                    ev(s.test, cur)
                    out = self.block(s.body, dict(cur))
                    new = self.join(cur, out)
                    if new == cur:
                        break
                    cur = new
                return self.block(s.orelse, cur)
            case ast.Try() | ast.TryStar():
                start = dict(env)
                a = self.block(s.body, dict(env))
                mid = self.join(start, a)
                if a is not None:
                    a = self.block(s.orelse, a)
                for h in s.handlers:
                    a = self.join(a, self.block(h.body, dict(mid)))
                if s.finalbody:
                    b = self.block(s.finalbody, dict(a if a is not None else mid))
                    a = b if a is not None else None
                return a
            case ast.With() | ast.AsyncWith():
                for i in s.items:
                    v = ev(i.context_expr, env)
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, None, OTHER, env)
                    del v
                return self.block(s.body, env)
            case ast.Match():
                ev(s.subject, env)
                out, closed = None, False
                for c in s.cases:
                    e = dict(env)
                    if c.guard is not None:
                        ev(c.guard, e)
                    out = self.join(out, self.block(c.body, e))
                    closed |= isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None
                return out if closed else self.join(out, env)
            case ast.FunctionDef() | ast.AsyncFunctionDef():
                f = next((g for g in self.prog.funcs.values() if g.node is s), None)
                if f is not None:
                    self.function(f, env, self.depth + 1)
            case ast.Expr() | ast.Assert() | ast.Delete():
                for x in ast.iter_child_nodes(s):
                    if isinstance(x, ast.expr):
                        ev(x, env)
            case _:
                pass
        return env

    @staticmethod
    def load(t):
        t = ast.parse(ast.unparse(t), mode="eval").body
        return t

    def bind(self, t, value, v, env):
        match t:
            case ast.Name():
                env[t.id] = v
            case ast.Tuple() | ast.List():
                elts = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
                vals = [OTHER if e is None else self.peek(e, env) for e in elts]
                for x, e, w in zip(t.elts, elts, vals):
                    self.bind(x, e, w, env)
            case ast.Attribute():
                self.ev(t.value, env)
                self.attrs.setdefault(t.attr, set()).add(v)
            case ast.Starred():
                self.bind(t.value, None, OTHER, env)
            case ast.Subscript():
                self.ev(t.value, env)
                self.ev(t.slice, env)

    def peek(self, e, env):
        calls, self.calls = self.calls, []
        try:
            return self.ev(e, env)
        finally:
            self.calls = calls

    def given_test(self, t, env):
        """True when the test holds if a value is given, False if it does not, None when that does not matter."""
        match t:
            case ast.Compare(left=x, ops=[ast.Is() | ast.IsNot() | ast.Eq() | ast.NotEq() as op], comparators=[ast.Constant(value=None)]):
                if self.peek(x, env) != OTHER:
                    return isinstance(op, (ast.IsNot, ast.NotEq))
            case ast.UnaryOp(op=ast.Not(), operand=x):
                k = self.given_test(x, env)
                return None if k is None else not k
            case ast.Name() | ast.Attribute() if not self.numeric:
                return True if self.peek(t, env) != OTHER else None
            case ast.BoolOp():
                ks = [self.given_test(x, env) for x in t.values]
                stop = isinstance(t.op, ast.Or)
                if stop in ks:
                    return stop
                if all(k is (not stop) for k in ks):
                    return not stop
        return None

    # ---- expressions
    def ev(self, e, env):
        match e:
            case ast.Name():
                return env.get(e.id, OTHER)
            case ast.Attribute():
                self.ev(e.value, env)
                got = self.attrs.get(e.attr)
                return next(iter(got)) if got and len(got) == 1 else OTHER
            case ast.NamedExpr():
                v = self.ev(e.value, env)
                env[e.target.id] = v
                return v
            case ast.IfExp():
                k = self.given_test(e.test, env)
                self.ev(e.test, env)
                a = self.ev(e.body, env) if k is not False else None
                b = self.ev(e.orelse, env) if k is not True else None
                if a is None or b is None:
                    return b if a is None else a
                return a if a == b else OTHER
            case ast.BoolOp() if not self.numeric and isinstance(e.op, ast.Or):
                for x in e.values:
                    v = self.ev(x, env)
                    if v != OTHER:
                        return v
                return OTHER
            case ast.BinOp() if self.numeric and isinstance(e.op, (ast.Add, ast.Sub)):
                a, b = self.ev(e.left, env), self.ev(e.right, env)
                ka, kb = self.const(e.left), self.const(e.right)
                if a != OTHER and kb is not None:
                    return a + (kb if isinstance(e.op, ast.Add) else -kb)
                if b != OTHER and ka is not None and isinstance(e.op, ast.Add):
                    return b + ka
                return OTHER
            case ast.Call():
                return self.call(e, env)
            case ast.Lambda():
                inner = {k: v for k, v in env.items() if k not in {a.arg for a in ast.walk(e.args) if isinstance(a, ast.arg)}}
                for d in (*e.args.defaults, *e.args.kw_defaults):
                    if d is not None:
                        self.ev(d, env)
                self.depth += 1
                self.ev(e.body, inner)
                self.depth -= 1
                return OTHER
            case ast.ListComp() | ast.SetComp() | ast.DictComp() | ast.GeneratorExp():
                inner = dict(env)
                d = 1 if isinstance(e, ast.GeneratorExp) else 0
                for g in e.generators:
                    self.ev(g.iter, inner)
                    self.bind(g.target, None, OTHER, inner)
                    for c in g.ifs:
                        self.ev(c, inner)
                self.depth += d
                for x in (e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,):
                    self.ev(x, inner)
                self.depth -= d
                return OTHER
            case None:
                return OTHER
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
            elif isinstance(x, ast.keyword):
                self.ev(x.value, env)
        return OTHER

    @staticmethod
    def const(e):
        return e.value if isinstance(e, ast.Constant) and isinstance(e.value, int) else None

    def call(self, e, env):
        fn, args, kws = e.func, list(e.args), list(e.keywords)
        if self.dotted(fn) == "functools.partial" and args:
            fn, args = args[0], args[1:]
            partial = True
        else:
            partial = False
        self.ev(fn, env) if not isinstance(fn, ast.Name) else None
        vals = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in args]
        named, spread = {}, False
        for k in kws:
            if k.arg is None:
                if isinstance(k.value, ast.Dict) and all(isinstance(x, ast.Constant) for x in k.value.keys):
                    for x, v in zip(k.value.keys, k.value.values, strict=True):
                        named[x.value] = self.ev(v, env)
                else:
                    self.ev(k.value, env)
                    spread = True
            else:
                named[k.arg] = self.ev(k.value, env)
        starred = any(isinstance(a, ast.Starred) for a in args)
        cands = self.candidates(fn, args, named, spread or starred or partial)
        self.calls.append(Site(self.cur, self.module, e, fn, vals, named, spread, starred, cands, self.depth, partial, self.dotted(fn)))
        for c, skip in cands:
            self.pass_on(c, skip, vals, named, starred)
        d = self.dotted(fn)
        if d in self.keeps or any(c.qual in self.keeps for c, _ in cands):
            got = [v for v in (*vals, *named.values()) if v != OTHER]
            if got:
                return got[0]
        if len(cands) == 1 and isinstance(cands[0][0], Func):
            # a function that gives back what it is given
            rs = self.returns.get(cands[0][0])
            if rs and not self.numeric and all(v != OTHER for _, v in rs) and any(v != OTHER for v in (*vals, *named.values())):
                return 0
        return OTHER

    def pass_on(self, c, skip, vals, named, starred):
        ps = self.plist(c, skip)
        if ps is None:
            return
        pos, allp = ps
        got = {}
        if not starred:
            for a, v in zip(pos, vals):
                got[a] = v
        got.update({k: v for k, v in named.items() if k in allp})
        for a, v in got.items():
            if v == OTHER or (c, a) in self.extra and self.extra[c, a] == OTHER:
                continue
            if isinstance(c, Func):
                arg = next((x for x in c.params if x.arg == a), None)
                if arg is None or self.is_param(c, arg):
                    continue
                w = v - 1 - self.depth if self.numeric else 0
                old = self.extra.setdefault((c, a), w)
                if old != w:
                    self.extra[c, a] = OTHER
            else:
                self.attrs.setdefault(a, set()).add(v)

    def plist(self, c, skip):
        """(positional parameter names, all names) of a function or of the constructor of a class with fields."""
        if isinstance(c, Class):
            names = [f for f in c.ann]
            return names, set(names)
        a = c.node.args
        pos = [x.arg for x in (*a.posonlyargs, *a.args)][skip:]
        return pos, {*pos, *(x.arg for x in a.kwonlyargs)}

    def dotted(self, fn):
        r = resolve(self.prog, fn, self.cur, self.module) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        return r[1] if r and r[0] == "ext" else None

    def candidates(self, fn, args, named, loose):
        """[(function or class with fields, number of leading parameters bound already)] a call may reach."""
        if isinstance(fn, ast.Name):
            f = self.cur
            while f is not None:
                for g in self.prog.funcs.values():
                    if g.parent is f and g.name == fn.id:
                        return [(g, 0)]
                f = f.parent
        r = resolve(self.prog, fn, self.cur, self.module) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if isinstance(fn, ast.Name) and fn.id == "cls" and self.cur is not None and self.cur.cls is not None:
            r = ("class", self.cur.cls)
        if r:
            if r[0] == "func":
                f = r[1]
                return [(f, 1 if f.is_classmethod else 0)]
            if r[0] == "class":
                m = r[1].find_method("__init__") or r[1].find_method("__new__")
                return [(m, 1)] if m is not None and m.module.name.split(".")[0] == "graphix" else [(r[1], 0)]
            return []
        if not isinstance(fn, ast.Attribute):
            return []
        out = []
        classes = self.types.classes(self.types.of(fn.value, self.cur, self.module))
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.cur is not None:
            f = self.cur
            while f is not None and f.cls is None:
                f = f.parent
            if f is not None:
                for c in f.cls.mro()[1:]:
                    if isinstance(c, Class) and fn.attr in c.methods:
                        return [(c.methods[fn.attr], 1)]
            return []
        for m in self.methods.get(fn.attr, ()):
            if m.is_property:
                continue
            if classes is not None and not any(c.is_subclass(m.cls) or m.cls.is_subclass(c) for c in classes):
                continue
            skip = 0 if m.is_static else 1
            if self.fits(m, skip, args, named, loose):
                out.append((m, skip))
        return out

    @staticmethod
    def fits(m, skip, args, named, loose):
        a = m.node.args
        pos = [x.arg for x in (*a.posonlyargs, *a.args)][skip:]
        allp = {*pos, *(x.arg for x in a.kwonlyargs)}
        if a.kwarg is None and not set(named) <= allp:
            return False
        if loose:
            return True
        if a.vararg is None and len(args) > len(pos):
            return False
        need = pos[: len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
        return set(need[len(args) :]) <= set(named)

    # ---- what a call passes for a parameter
    def passed(self, site, c, skip, name):
        """Value passed for a parameter: GIVEN offset, OTHER, None when nothing is passed, or "?" when that cannot be told."""
        ps = self.plist(c, skip)
        if name in site.named:
            return site.named[name]
        pos = ps[0]
        if name in pos:
            i = pos.index(name)
            if i < len(site.vals) and not site.starred:
                return site.vals[i]
        if site.spread or site.starred:
            return "?"
        return None


class Types:
    """What annotations say of the type of an expression, as far as needed to tell methods of the same name apart."""

    def __init__(self, prog):
        self.prog = prog
        self.cache = {}
        self.busy = set()

    def classes(self, t):
        """The classes of the package a type may be (empty when it is none of them); None when unknown."""
        if t is None or t[0] in ("any", "tvar"):
            return None
        if t[0] == "uni":
            out = []
            for x in t[1]:
                c = self.classes(x)
                if c is None:
                    return None
                out += c
            return out
        if t[0] in ("cls", "lit"):
            return [t[1]]
        return []

    def of(self, e, func, module):
        key = (id(e), func, module)
        if key in self.cache:
            return self.cache[key][1]
        if key in self.busy or len(self.busy) > 40:
            return ("any",)
        self.busy.add(key)
        try:
            t = self.infer(e, func, module) or ("any",)
        finally:
            self.busy.discard(key)
        self.cache[key] = (e, t)
        return t

    def infer(self, e, func, module):
        P = self.prog
        any_ = ("any",)
        match e:
            case ast.Name(id=name):
                f = func
                while f is not None:
                    if name == "self" and f.cls is not None and f.params and f.params[0].arg == "self":
                        return ("cls", f.cls)
                    if not isinstance(f.node, ast.Lambda):
                        a = next((x for x in f.params if x.arg == name), None)
                        ts = [] if a is None or (a is f.node.args.vararg or a is f.node.args.kwarg) else [P.parse_ann(f.module, a.annotation, f.cls)]
                        known = self.assigned(name, f)
                        if a is not None and ts and ts[0][0] == "any" and not known:
                            return any_
                        if a is not None or known:
                            ts += known
                            return self.union(ts)
                    f = f.parent
                r = P.resolve_name(module, name)
                if r and r[0] == "const" and isinstance(r[3], ast.expr):
                    return self.of(r[3], None, r[1])
                return any_
            case ast.Attribute(value=v, attr=attr):
                r = resolve(P, e, func, module)
                if r is not None and r[0] == "ext":
                    return ("ext", r[1])
                t = self.of(v, func, module)
                cs = self.classes(t)
                if not cs:
                    return any_ if cs is None else ("ext", "?")
                return self.union([self.attribute(c, attr) for c in cs])
            case ast.Call(func=f):
                r = resolve(P, f, func, module) if isinstance(f, (ast.Name, ast.Attribute)) else None
                if r and r[0] == "class":
                    return ("cls", r[1])
                if r and r[0] == "func":
                    return self.returned(r[1], r[1].cls)
                if r and r[0] == "ext":
                    return ("ext", r[1])
                if isinstance(f, ast.Name) and f.id == "cls" and func is not None and func.cls is not None:
                    return ("cls", func.cls)
                if isinstance(f, ast.Attribute):
                    cs = self.classes(self.of(f.value, func, module))
                    if cs:
                        return self.union([self.returned(m, c) if (m := c.find_method(f.attr)) is not None else any_ for c in cs])
                return any_
            case ast.IfExp(body=a, orelse=b):
                return self.union([self.of(a, func, module), self.of(b, func, module)])
            case ast.NamedExpr(value=v) | ast.Starred(value=v) | ast.Await(value=v):
                return self.of(v, func, module)
            case ast.BoolOp(values=vs):
                return self.union([self.of(v, func, module) for v in vs])
            case ast.Subscript(value=v):
                return self.element(self.of(v, func, module))
            case ast.Constant(value=v):
                return ("none",) if v is None else ("prim", type(v).__name__)
            case ast.List() | ast.Tuple() | ast.Set() | ast.ListComp() | ast.SetComp() | ast.Dict() | ast.DictComp() | ast.JoinedStr():
                return ("ext", "builtin")
        return any_

    @staticmethod
    def union(ts):
        ts = [t for t in ts if t[0] != "none"] or ts
        if not ts or any(t[0] == "any" for t in ts):
            return ("any",)
        out = tuple(dict.fromkeys(ts))
        return out[0] if len(out) == 1 else ("uni", out)

    @staticmethod
    def element(t):
        if t and t[0] in ("seq", "set"):
            return t[1]
        if t and t[0] == "map":
            return t[2]
        return ("any",)

    def returned(self, f, cls):
        return self.prog.parse_ann(f.module, f.node.returns, cls) if not isinstance(f.node, ast.Lambda) else ("any",)

    def attribute(self, c, attr):
        for k in c.mro():
            if not isinstance(k, Class):
                continue
            for name in (attr, f"_{k.name}{attr}"):
                if name in k.ann:
                    return self.prog.parse_ann(k.module, k.ann[name].annotation, k)
            m = k.methods.get(attr)
            if m is not None:
                return self.returned(m, c) if m.is_property else ("ext", "method")
            for f in k.methods.values():
                if f.name not in ("__init__", "__new__", "__post_init__") or isinstance(f.node, ast.Lambda):
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr:
                        return self.prog.parse_ann(k.module, n.annotation, k)
                ts = [self.of(n.value, f, f.module) for n in ast.walk(f.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Attribute) and t.attr == attr]
                if ts:
                    return self.union(ts)
        return ("any",)

    def assigned(self, name, f):
        """Types of what a local variable is assigned."""
        out = []
        for n in ast.walk(f.node):
            match n:
                case ast.Assign(targets=ts, value=v):
                    for t in ts:
                        if isinstance(t, ast.Name) and t.id == name:
                            out.append(self.of(v, f, f.module))
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                            out.append(("any",))
                case ast.AnnAssign(target=ast.Name(id=i), annotation=a) if i == name:
                    return [self.prog.parse_ann(f.module, a, f.cls)]
                case ast.NamedExpr(target=ast.Name(id=i), value=v) if i == name:
                    out.append(self.of(v, f, f.module))
                case ast.For(target=t, iter=it) | ast.comprehension(target=t, iter=it):
                    if isinstance(t, ast.Name) and t.id == name:
                        out.append(self.element(self.of(it, f, f.module)))
                    elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                        out.append(("any",))
                case ast.withitem(optional_vars=t) if t is not None:
                    if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t)):
                        out.append(("any",))
                case ast.MatchAs(name=i) | ast.MatchStar(name=i) if i == name:
                    out.append(("any",))
                case ast.Lambda(args=a) if any(x.arg == name for x in ast.walk(a) if isinstance(x, ast.arg)):
                    out.append(("any",))
        return out


class Site:
    def __init__(self, func, module, node, fn, vals, named, spread, starred, cands, depth, partial, dotted):
        self.func, self.module, self.node, self.fn = func, module, node, fn
        self.vals, self.named, self.spread, self.starred = vals, named, spread, starred
        self.cands, self.depth, self.partial, self.dotted = cands, depth, partial, dotted

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    @property
    def where(self):
        return self.func.qual if self.func is not None else self.module.name
