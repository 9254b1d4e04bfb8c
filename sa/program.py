"""Program model: parsed modules, classes, functions, resolved names and annotations.

Nothing of the analysed package is imported or executed: everything is read from the syntax trees.
"""

from __future__ import annotations

import ast
import hashlib
from dataclasses import dataclass, field
from pathlib import Path

REPO = Path("/repo")
PKG = "graphix"


ANY_T = ("any",)


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, construct out of reach)."""


@dataclass(eq=False)
class Module:
    name: str
    path: Path
    tree: ast.Module
    source: str
    root: Path = REPO
    names: dict[str, tuple] = field(default_factory=dict)  # local name -> ("import", target) | ("def", obj) | ("assign", node)
    attr_assigns: dict[str, dict[str, ast.expr]] = field(default_factory=dict)  # Class -> attr -> expr (module level Class.attr = ..)

    def __deepcopy__(self, memo):
        return self

    @property
    def rel(self) -> str:
        return str(self.path.relative_to(self.root))


@dataclass(eq=False)
class Func:
    name: str
    qual: str
    node: ast.FunctionDef | ast.AsyncFunctionDef | ast.Lambda
    module: Module
    cls: "Class | None" = None
    parent: "Func | None" = None
    decorators: tuple[str, ...] = ()
    _gen: bool | None = None

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def is_property(self):
        return any(d in ("property", "cached_property", "functools.cached_property") for d in self.decorators)

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_abstract(self):
        return any(d.split(".")[-1] == "abstractmethod" for d in self.decorators)

    @property
    def is_overload(self):
        return any(d.split(".")[-1] == "overload" for d in self.decorators)

    @property
    def params(self) -> list[ast.arg]:
        a = self.node.args
        return [*a.posonlyargs, *a.args, *([a.vararg] if a.vararg else []), *a.kwonlyargs, *([a.kwarg] if a.kwarg else [])]

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = not isinstance(self.node, ast.Lambda) and any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node)
            )
        return self._gen

    def loc(self, node=None):
        return f"{self.module.rel}:{getattr(node or self.node, 'lineno', 0)}"


def walk_own(fn_node):
    """Walk a function's nodes without entering nested functions, lambdas or classes."""
    stack = list(fn_node.body) if isinstance(fn_node.body, list) else [fn_node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


@dataclass(eq=False)
class Class:
    name: str
    qual: str
    node: ast.ClassDef
    module: Module
    base_exprs: list[ast.expr] = field(default_factory=list)
    bases: list = field(default_factory=list)  # Class or str (external)
    methods: dict[str, Func] = field(default_factory=dict)
    ann: dict[str, ast.AnnAssign] = field(default_factory=dict)
    assigns: dict[str, ast.expr] = field(default_factory=dict)
    nested: dict[str, "Class"] = field(default_factory=dict)
    is_dataclass: bool = False
    kw_only: set = field(default_factory=set)
    frozen: bool = False
    dc_kwargs: dict[str, object] = field(default_factory=dict)
    _mro: list | None = None
    _fields: list | None = None
    _cvs: dict | None = None
    _subs: list | None = None
    _abs: bool | None = None
    prog: "Program | None" = None

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<Class {self.qual}>"

    def mro(self) -> list["Class"]:
        if self._mro is None:
            out, seen = [], set()

            def visit(c):
                if c in seen:
                    return
                seen.add(c)
                out.append(c)
                for b in c.bases:
                    if isinstance(b, Class):
                        visit(b)

            # linearisation: depth first is sufficient except for diamonds, where a
            # base shared by two branches must come after both.
            visit(self)
            order = []
            for c in out:
                order.append(c)
            # move any class which is a base of a later class after it
            changed = True
            while changed:
                changed = False
                for i, c in enumerate(order):
                    for j in range(i + 1, len(order)):
                        if c in order[j].bases:
                            order.insert(j, order.pop(i))
                            changed = True
                            break
                    if changed:
                        break
            self._mro = order
        return self._mro

    def external_bases(self):
        return {b for c in self.mro() for b in c.bases if isinstance(b, str)}

    @property
    def is_enum(self):
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for b in self.external_bases())

    @property
    def is_namedtuple(self):
        return any(b.split(".")[-1] == "NamedTuple" for b in self.external_bases())

    @property
    def is_abstract(self):
        if self._abs is None:
            self._abs = self._compute_abstract()
        return self._abs

    def _compute_abstract(self):
        names = {}
        for c in reversed(self.mro()):
            for n, m in c.methods.items():
                names[n] = m
        return any(m.is_abstract for m in names.values())

    def find_method(self, name) -> Func | None:
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_assign(self, name):
        """Return (class, expr) of a class level value for name."""
        for c in self.mro():
            if name in c.assigns:
                return c, c.assigns[name]
            aa = c.module.attr_assigns.get(c.name, {})
            if name in aa:
                return c, aa[name]
        return None

    def find_ann(self, name):
        for c in self.mro():
            if name in c.ann:
                return c, c.ann[name].annotation
        return None

    def subclasses(self):
        if self._subs is None:
            self._subs = [c for c in self.prog.classes.values() if c is not self and self in c.mro()]
        return self._subs

    def is_subclass(self, other: "Class"):
        return other in self.mro()

    def enum_members(self) -> dict[str, ast.expr]:
        return {
            n: e
            for n, e in self.assigns.items()
            if not n.startswith("__") and not isinstance(e, ast.Lambda) and n not in self.methods
        }

    def fields(self):
        """Dataclass fields in constructor order: (name, annotation, default expr or None, defining class)."""
        if self._fields is None:
            self._fields = self._compute_fields()
        return self._fields

    def _compute_fields(self):
        out = {}
        for c in reversed(self.mro()):
            if not (c.is_dataclass or c.is_namedtuple):
                continue
            kw = bool(c.dc_kwargs.get("kw_only"))
            for n, a in c.ann.items():
                if _is_classvar(a.annotation):
                    out.pop(n, None)
                    continue
                if ast.unparse(a.annotation).split(".")[-1] == "KW_ONLY":
                    kw = True
                    continue
                self.kw_only.discard(n)
                if kw:
                    self.kw_only.add(n)
                out[n] = (n, a.annotation, a.value, c)
        return [f for f in out.values() if f[0] not in self.kw_only] + [f for f in out.values() if f[0] in self.kw_only]

    def classvars(self):
        if self._cvs is None:
            self._cvs = self._compute_classvars()
        return self._cvs

    def _compute_classvars(self):
        out = {}
        for c in reversed(self.mro()):
            for n, a in c.ann.items():
                if _is_classvar(a.annotation):
                    out[n] = (n, a.annotation, a.value, c)
        return out


def _is_classvar(ann):
    if isinstance(ann, ast.Subscript):
        ann = ann.value
    s = ast.unparse(ann)
    return s.split(".")[-1] == "ClassVar"


def _deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return ast.unparse(d)


class Program:
    def __init__(self, root: Path | None = None):
        self.root = root or REPO
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.funcs: dict[str, Func] = {}
        pk = self.root / PKG
        h = hashlib.sha256()
        for p in sorted(pk.rglob("*.py")):
            rel = p.relative_to(self.root).with_suffix("")
            parts = list(rel.parts)
            if parts[-1] == "__init__":
                parts.pop()
            name = ".".join(parts)
            src = p.read_text()
            h.update(src.encode())
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                raise AnalysisError(f"{p} does not parse: {e}") from e
            self.modules[name] = Module(name, p, tree, src, root=self.root)
        self.digest = h.hexdigest()[:16]
        if not self.modules:
            raise AnalysisError("no module found")
        for m in self.modules.values():
            self._index_module(m)
        for c in self.classes.values():
            c.prog = self
            for b in c.base_exprs:
                e = b.value if isinstance(b, ast.Subscript) else b
                r = self.resolve_expr(c.module, e)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                else:
                    c.bases.append(r[1] if r and r[0] == "ext" else ast.unparse(e))

    def models(self):
        """Model of the networkx graphs (lazily added)."""
        m = self.modules.get("nxmodel")
        if m is None:
            p = Path(__file__).resolve().parent / "models" / "nxmodel.py"
            src = p.read_text()
            known = set(self.classes)
            m = self.modules["nxmodel"] = Module("nxmodel", p, ast.parse(src), src, root=p.parent)
            self._index_module(m)
            for n, c in self.classes.items():
                if n not in known:
                    c.prog = self
                    for b in c.base_exprs:
                        r = self.resolve_expr(c.module, b)
                        c.bases.append(r[1] if r and r[0] == "class" else ast.unparse(b))
        return m

    def np_models(self):
        """Stubs of the integer arrays (lazily added); classes of arrays inherit from theirs."""
        m = self.modules.get("npmodel")
        if m is None:
            p = Path(__file__).resolve().parent / "models" / "npmodel.py"
            src = p.read_text()
            m = self.modules["npmodel"] = Module("npmodel", p, ast.parse(src), src, root=p.parent)
            self._index_module(m)
            nd = self.classes["npmodel.ndarray"]
            nd.prog = self
            for c in self.classes.values():
                if any(isinstance(b, str) and b.split("[")[0].rsplit(".", 1)[-1] in ("NDArray", "ndarray") for b in c.bases):
                    c.bases = [nd if isinstance(b, str) else b for b in c.bases]
                    c._mro = None
        return m

    # ---- indexing
    def _index_module(self, m: Module):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = ("import", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pkgparts = m.name.split(".")
                    if m.path.name != "__init__.py":
                        pkgparts = pkgparts[:-1]
                    pkgparts = pkgparts[: len(pkgparts) - (n.level - 1)]
                    base = ".".join([*pkgparts, *([n.module] if n.module else [])])
                for a in n.names:
                    m.names[a.asname or a.name] = ("import", f"{base}.{a.name}")
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mk_func(m, n, f"{m.name}.{n.name}")
                if f.is_overload and n.name in m.names:
                    continue
                m.names[n.name] = ("def", f)
            elif isinstance(n, ast.ClassDef):
                c = self._mk_class(m, n, f"{m.name}.{n.name}")
                m.names[n.name] = ("def", c)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ("assign", n.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.names[e.id] = ("assign", ast.Subscript(value=n.value, slice=ast.Constant(i), ctx=ast.Load()))
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        m.attr_assigns.setdefault(t.value.id, {})[t.attr] = n.value
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    m.names[n.target.id] = ("assign", n.value)
                elif isinstance(n.target, ast.Name):
                    m.names.setdefault(n.target.id, ("declared", n.annotation))
            elif isinstance(n, ast.If):
                self._index_body(m, n.body)
                self._index_body(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._index_body(m, n.body)
                for h in n.handlers:
                    pass
                self._index_body(m, n.orelse)

    def _mk_func(self, m, n, qual, cls=None, parent=None):
        f = Func(n.name, qual, n, m, cls, parent, tuple(_deco_name(d) for d in n.decorator_list))
        if not f.is_overload:
            self.funcs[qual] = f
        for sub in walk_own(n):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._mk_func(m, sub, f"{qual}.<locals>.{sub.name}", None, f)
        return f

    def _mk_class(self, m, n, qual):
        c = Class(n.name, qual, n, m, list(n.bases))
        self.classes[qual] = c
        for d in n.decorator_list:
            nm = _deco_name(d)
            if nm.split(".")[-1] == "dataclass":
                c.is_dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg and isinstance(k.value, ast.Constant):
                            c.dc_kwargs[k.arg] = k.value.value
                c.frozen = bool(c.dc_kwargs.get("frozen"))
        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._mk_func(m, s, f"{qual}.{s.name}", c)
                    if f.is_overload:
                        continue
                    if any(x.endswith(".setter") for x in f.decorators):
                        continue
                    c.methods[s.name] = f
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.ann[s.target.id] = s
                    if s.value is not None:
                        c.assigns[s.target.id] = s.value
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.assigns[t.id] = s.value
                elif isinstance(s, ast.ClassDef):
                    c.nested[s.name] = self._mk_class(m, s, f"{qual}.{s.name}")
                elif isinstance(s, ast.If):
                    body(s.body)
                    body(s.orelse)
        body(n.body)
        return c

    # ---- resolution
    def lookup_dotted(self, dotted: str, depth=0):
        """Resolve an absolute dotted name to an entity."""
        if depth > 20:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if "." in dotted:
            head, tail = dotted.rsplit(".", 1)
            if head in self.modules:
                return self.resolve_name(self.modules[head], tail, depth + 1) or ("ext", dotted)
            r = self.lookup_dotted(head, depth + 1)
            if r[0] == "class":
                return self._class_attr(r[1], tail) or ("ext", dotted)
        return ("ext", dotted)

    def resolve_name(self, m: Module, name: str, depth=0):
        e = m.names.get(name)
        if e is None:
            if f"{m.name}.{name}" in self.modules:
                return ("module", self.modules[f"{m.name}.{name}"])
            return None
        if e[0] == "import":
            return self.lookup_dotted(e[1], depth + 1)
        if e[0] == "def":
            return ("class", e[1]) if isinstance(e[1], Class) else ("func", e[1])
        if e[0] == "assign":
            return ("const", m, name, e[1])
        return ("declared", m, name)

    def _class_attr(self, c: Class, name):
        if name in c.nested:
            return ("class", c.nested[name])
        f = c.find_method(name)
        if f:
            return ("func", f)
        a = c.find_assign(name)
        if a:
            return ("classattr", a[0], name, a[1])
        return None

    def resolve_expr(self, m: Module, e: ast.expr):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if r is None:
                return None
            if r[0] == "module":
                return self.resolve_name(r[1], e.attr) or ("ext", f"{r[1].name}.{e.attr}")
            if r[0] == "ext":
                return ("ext", f"{r[1]}.{e.attr}")
            if r[0] == "class":
                return self._class_attr(r[1], e.attr)
        return None

    # ---- lookups by (possibly short) name
    def cls(self, name) -> Class:
        c = self.classes.get(name)
        if c is None:
            cands = [v for k, v in self.classes.items() if k.endswith("." + name)]
            if len(cands) != 1:
                raise AnalysisError(f"anchor vanished: class {name} ({len(cands)} candidates)")
            c = cands[0]
        return c

    def func(self, name) -> Func:
        f = self.funcs.get(name)
        if f is None:
            cands = [v for k, v in self.funcs.items() if k.endswith("." + name) and "<locals>" not in k]
            if len(cands) != 1:
                raise AnalysisError(f"anchor vanished: function {name} ({len(cands)} candidates)")
            f = cands[0]
        return f

    def mod(self, name) -> Module:
        if name not in self.modules:
            raise AnalysisError(f"anchor vanished: module {name}")
        return self.modules[name]

    # ---- annotations
    def parse_ann(self, m: Module, a, cls: Class | None = None, depth=0):
        """Return a type expression (nested tuples, hashable)."""
        ANY = ("any",)
        if a is None or depth > 12:
            return ANY
        if isinstance(a, ast.Constant):
            if a.value is None:
                return ("none",)
            if isinstance(a.value, str):
                try:
                    return self.parse_ann(m, ast.parse(a.value, mode="eval").body, cls, depth + 1)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return mk_union([self.parse_ann(m, a.left, cls, depth + 1), self.parse_ann(m, a.right, cls, depth + 1)])
        if isinstance(a, ast.Subscript):
            base = a.value
            name = ast.unparse(base).split(".")[-1]
            args = list(a.slice.elts) if isinstance(a.slice, ast.Tuple) else [a.slice]
            P = lambda x: self.parse_ann(m, x, cls, depth + 1)
            if name == "Literal":
                vals = []
                for x in args:
                    vals.append(ast.unparse(x))
                r0 = self.resolve_expr(m, args[0]) if isinstance(args[0], ast.Attribute) else None
                if isinstance(args[0], ast.Attribute):
                    rc = self.resolve_expr(m, args[0].value)
                    if rc and rc[0] == "class":
                        return ("lit", rc[1], tuple(x.attr for x in args if isinstance(x, ast.Attribute)))
                return ("prim", type(getattr(args[0], "value", "")).__name__)
            if name in ("Optional",):
                return mk_union([P(args[0]), ("none",)])
            if name == "Union":
                return mk_union([P(x) for x in args])
            if name in ("ClassVar", "Final", "Annotated", "Required", "NotRequired"):
                return P(args[0])
            if name in ("list", "List", "Sequence", "Iterable", "Iterator", "Collection", "Generator", "MutableSequence", "Reversible", "deque"):
                return ("seq", P(args[0]), name)
            if name in ("set", "Set", "AbstractSet", "frozenset", "FrozenSet", "MutableSet"):
                return ("set", P(args[0]), name)
            if name in ("dict", "Dict", "Mapping", "MutableMapping", "defaultdict", "MappingProxyType"):
                return ("map", P(args[0]), P(args[1]) if len(args) > 1 else ANY, name)
            if name in ("tuple", "Tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("seq", P(args[0]), "tuple")
                return ("tup", tuple(P(x) for x in args))
            if name == "Callable":
                return ("callable", P(args[1]) if len(args) > 1 else ANY)
            if name == "type":
                return ANY
            return self.parse_ann(m, base, cls, depth + 1)
        if isinstance(a, (ast.Name, ast.Attribute)):
            nm = ast.unparse(a)
            last = nm.split(".")[-1]
            if last == "Self" and cls is not None:
                return ("cls", cls)
            if nm in ("int", "float", "str", "bool", "complex", "bytes"):
                return ("prim", nm)
            if nm in ("set", "frozenset"):
                return ("set", ANY, nm)
            if nm in ("list", "tuple"):
                return ("seq", ANY, nm)
            if nm == "dict":
                return ("map", ANY, ANY, nm)
            r = self.resolve_expr(m, a)
            if r is None:
                return ANY
            if r[0] == "class":
                return ("cls", r[1])
            if r[0] == "const":
                v = r[3]
                if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "TypeVar":
                    for k in v.keywords:
                        if k.arg == "bound":
                            return self.parse_ann(r[1], k.value, cls, depth + 1)
                    return ("tvar", r[2])
                return self.parse_ann(r[1], v, cls, depth + 1)
            if r[0] == "classattr":
                return self.parse_ann(r[1].module, r[3], cls, depth + 1)
            if r[0] == "ext":
                return ("ext", r[1])
            return ANY
        return ANY


def mk_union(ts):
    out = []
    for t in ts:
        for x in t[1] if t[0] == "uni" else [t]:
            if x not in out:
                out.append(x)
    if len(out) == 1:
        return out[0]
    return ("uni", tuple(out))
