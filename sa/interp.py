"""Abstract interpreter over the syntax trees of the analysed package.

Domain: Herbrand terms (value numbering) with normal forms for polynomials, GF(2) sums and set algebra,
finite sets of classes and enumeration members for the values whose declared type is a union, and summaries
for the containers.  Branches partition the traces by their guards (no feasibility is asked to any solver:
a guard is only resolved by constants, by declared types, or by an identical guard taken before on the same
trace).  Loops over unknown collections are analysed once, for a generic element, from a state where what the
loop modifies is widened, and the effect of the loop is summarised as a comprehension.
"""

from __future__ import annotations

import ast
import math
from fractions import Fraction

from .program import ANY_T, AnalysisError, Class, Func, Module, Program, mk_union
from .values import (
    EMPTY, IMAG, BoundBuiltin, DictV, EnumVal, Ext, FuncVal, Inst, ListV, Obj, Partial, SetV, Splat, Term,
    and_norm, from_poly, is_const, is_num, minus_norm, known_set, or_norm, padd, pinv, pmul, psqrt, show, to_poly, xor_norm, bxor_norm,
)

INTT = ("prim", "int")
BOOLT = ("prim", "bool")
FLOATT = ("prim", "float")
NUMPY_TYPES = frozenset("numpy." + x for x in ("complex128", "float64", "object_", "int64", "uint8", "bool_", "bool", "int32", "complex64", "float32"))
STRT = ("prim", "str")


class Signal(Exception):
    pass


class Return_(Signal):
    def __init__(self, value):
        self.value = value


class Break_(Signal):
    pass


class Continue_(Signal):
    pass


class Raise_(Signal):
    def __init__(self, exc, args=(), node=None, implicit=False):
        self.exc = exc  # short class name
        self.args_ = args
        self.node = node
        self.implicit = implicit
        self.loc = ""


def order(x):
    """Order in which the elements of a known set are visited."""
    return (0, x, "") if is_num(x) and not isinstance(x, complex) else (1, 0, show(x))


class NotKnown(Signal):
    """A condition that is not decided by what is known."""


class Infeasible(Signal):
    pass


class Event:
    __slots__ = ("kind", "name", "args", "nguards", "loc", "value", "subs", "ctx", "extra")

    def __init__(self, kind, name, args, nguards, loc, value=None, subs=None, ctx=None, extra=None):
        self.kind, self.name, self.args, self.nguards, self.loc = kind, name, args, nguards, loc
        self.value, self.subs, self.ctx, self.extra = value, subs, ctx, extra

    def __repr__(self):
        if self.kind == "loop":
            return f"loop[{', '.join(show(i) for i, _ in self.ctx)}]{{" + " || ".join(
                f"{r.kind} {show_guards(r.guards)}: {r.events}" for r in self.subs) + "}"
        a = ", ".join(f"{k}={show(v)}" for k, v in self.args.items()) if isinstance(self.args, dict) else show(self.args)
        return f"{self.kind}:{self.name}({a})"


def show_guards(gs):
    return " & ".join(("" if v is True else "!" if v is False else f"{v}:") + show(a) for a, v in gs)


class Path:
    """One trace class: guards, events and outcome."""

    def __init__(self, kind, value, guards, events, snap=None, node=None, env=None):
        self.kind, self.value, self.guards, self.events, self.snap, self.node, self.env = kind, value, guards, events, snap, node, env

    def __repr__(self):
        return f"<{self.kind} {show(self.value) if not isinstance(self.value, Obj) else self.value} if {show_guards(self.guards)}; {self.events}>"

    def g(self):
        return dict(self.guards)

    def cls_of(self, term):
        for a, v in self.guards:
            if a.op == "class" and a.args[0] == term:
                return v
        return None

    def flat(self, kinds=None):
        """Yield (event, guards, ctx) with the guards and loop contexts the event is under."""
        yield from _flat_events(self.events, self.guards, (), kinds)


def _flat_events(events, guards, ctx, kinds, pre=()):
    for e in events:
        here = tuple(pre) + tuple(guards[: e.nguards])
        if e.kind == "loop":
            for r in e.subs:
                yield from _flat_events(r.events, r.guards, ctx + tuple(e.ctx), kinds, here)
        elif kinds is None or e.kind in kinds:
            yield e, here, ctx


class Sub:
    """Outcome of one abstract iteration of a loop."""

    def __init__(self, kind, value, guards, events, snap, node=None):
        self.kind, self.value, self.guards, self.events, self.snap, self.node = kind, value, guards, events, snap, node


class Frame(Obj):
    def __init__(self, func, module, cls=None, parent=None):
        super().__init__()
        self.env = {}
        self.func, self.module, self.cls, self.parent = func, module, cls, parent
        self.yields = None


class State:
    FIELDS = ("known", "narrow", "subst", "overlay", "attrs", "guards", "events", "heap", "loopdepth")

    def __init__(self):
        self.known, self.narrow, self.subst, self.overlay, self.attrs = {}, {}, {}, {}, {}
        self.guards, self.events, self.heap = [], [], []
        self.loopdepth = {}


OBJECTS = {}  # objects compared by identity, to find them back from their terms


def freeze(v):
    """Hashable snapshot of a value."""
    if isinstance(v, ListV):
        its = tuple(freeze(x) for x in v.items)
        if len(its) == 1 and isinstance(its[0], Term) and its[0].op == "splat" and v.kind in ("list", "tuple"):
            return its[0].args[0]
        return Term("list", *its)
    if isinstance(v, SetV):
        return v.term
    if isinstance(v, DictV):
        if not v.items and len(v.rest) == 1:
            return v.rest[0].term
        return Term("dict", frozenset((freeze(k), freeze(x)) for k, x in v.items.values()), tuple(r.term for r in v.rest))
    if isinstance(v, Inst):
        if any(x is v for x in v.fields.values()):  # compared by identity
            OBJECTS[v.oid] = v
            return Term("obj", v.cls.qual, v.oid, typ=("cls", v.cls))
        return Term("new", v.cls.qual, tuple((k, freeze(x)) for k, x in v.fields.items()), typ=("cls", v.cls))
    if isinstance(v, Splat):
        return Term("splat", v.term)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, FuncVal):
        if isinstance(v.func.node, ast.Lambda):
            return Term("lambda", v.func.qual)
        if v.self_ is not None:
            return Term("method", freeze(v.self_), v.func.qual)
        return Term("func", v.func.qual)
    if isinstance(v, BoundBuiltin):
        return Term("bound", freeze(v.base), v.name)
    if isinstance(v, Partial):
        return Term("partial", freeze(v.fn), tuple(freeze(a) for a in v.args), tuple(sorted((k, freeze(a)) for k, a in v.kwargs.items())))
    if isinstance(v, Class):
        return Term("classref", v.qual)
    if isinstance(v, Module):
        return Term("modref", v.name)
    if isinstance(v, slice):
        return Term("slice", freeze(v.start), freeze(v.stop), freeze(v.step))
    if isinstance(v, float):
        return v
    return v


def minimise(dnf):
    """Merge conjunctions which differ by the polarity of one guard."""
    cur = {frozenset(c) for c in dnf}
    changed = True
    while changed:
        changed = False
        # absorption
        cur = {c for c in cur if not any(d < c for d in cur)}
        for c in sorted(cur, key=lambda s: show(frozenset(s))):
            for a, v in c:
                if v is True or v is False:
                    d = (c - {(a, v)}) | {(a, not v)}
                    if d in cur:
                        cur = (cur - {c, d}) | {c - {(a, v)}}
                        changed = True
                        break
            if changed:
                break
    return frozenset(cur)


def mk_exists(ctx, dnf):
    dnf = minimise(dnf)
    if not dnf:
        return False
    ctx = tuple(ctx)
    if frozenset() in dnf:
        if len(ctx) == 1:
            return Term("truthy", ctx[0][0], typ=BOOLT)
        return Term("exists", ctx, frozenset([frozenset()]), typ=BOOLT)
    if len(ctx) == 1 and len(dnf) == 1:
        (it, el), = ctx
        (conj,) = dnf
        if len(conj) == 1:
            ((a, v),) = conj
            if a.op == "in" and a.args[0] == el and el not in subterms(a.args[1]):
                r = and_norm([it, a.args[1]]) if v else minus_norm(it, a.args[1])
                return False if r == EMPTY else Term("truthy", r, typ=BOOLT)
            if a.op == "eq" and v is True and el in a.args:
                o = a.args[1] if a.args[0] == el else a.args[0]
                if el not in subterms(o):
                    return Term("in", o, it, typ=BOOLT)
    return Term("exists", ctx, dnf, typ=BOOLT)


def subterms(t, acc=None):
    acc = acc if acc is not None else set()
    if isinstance(t, Term):
        if t in acc:
            return acc
        acc.add(t)
        for a in t.args:
            subterms(a, acc)
    elif isinstance(t, (tuple, frozenset)):
        for a in t:
            subterms(a, acc)
    return acc


def substitute(t, m):
    """Rebuild t replacing the terms of m."""
    if isinstance(t, Term):
        if t in m:
            return m[t]
        if t.op == "poly":
            acc = 0
            for mono, c in t.args[0]:
                v = c
                for at, p in mono:
                    b = substitute(at, m)
                    if p < 0:
                        b, p = pinv(b), -p
                    for _ in range(p):
                        v = pmul(v, b)
                acc = padd(acc, v)
            return acc
        args = tuple(substitute(a, m) for a in t.args)
        if args == t.args:
            return t
        if t.op == "xor":
            return xor_norm(args[0])
        if t.op == "or":
            return or_norm(args[0])
        if t.op == "and":
            return and_norm(args[0])
        if t.op == "setminus":
            return minus_norm(*args)
        return Term(t.op, *args, typ=t.typ)
    if isinstance(t, tuple):
        return tuple(substitute(a, m) for a in t)
    if isinstance(t, frozenset):
        return frozenset(substitute(a, m) for a in t)
    return t


def elem_type(t):
    if not t:
        return None
    if t[0] in ("seq", "set"):
        return t[1]
    if t[0] == "map":
        return t[1]
    if t[0] == "tup":
        return mk_union(list(t[1])) if t[1] else None
    if t[0] == "uni":
        xs = [elem_type(x) for x in t[1]]
        xs = [x for x in xs if x]
        return mk_union(xs) if xs else None
    return None


BUILTINS = {
    "len", "range", "enumerate", "zip", "sorted", "reversed", "list", "tuple", "set", "frozenset", "dict", "any", "all",
    "sum", "min", "max", "abs", "int", "float", "complex", "bool", "str", "repr", "isinstance", "issubclass", "type",
    "getattr", "hasattr", "next", "iter", "map", "filter", "print", "super", "id", "hash", "round", "divmod", "pow",
    "callable", "object", "setattr", "slice", "vars", "format", "ord", "chr", "bytes",
}
EXC_BASES = {
    "KeyError": ("LookupError", "Exception"), "IndexError": ("LookupError", "Exception"), "ValueError": ("Exception",),
    "TypeError": ("Exception",), "StopIteration": ("Exception",), "AssertionError": ("Exception",),
    "NotImplementedError": ("RuntimeError", "Exception"), "RuntimeError": ("Exception",), "AttributeError": ("Exception",),
    "ZeroDivisionError": ("ArithmeticError", "Exception"), "ModuleNotFoundError": ("ImportError", "Exception"),
}
SET_OPS = {"union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "copy"}
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "add", "discard", "update", "setdefault", "popitem", "sort", "reverse",
    "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "move_to_end", "extendleft",
}


class Interp:
    max_rec = 2

    def __init__(self, prog: Program, opaque=None, inline=None, max_paths=3000, max_depth=14, max_steps=400000, abstract_new=()):
        self.hooks = {}
        self.parallel = None  # what the parallel loops did, when followed
        self.footprint = None  # elements touched by the current iteration of a parallel loop
        self.reverse_sets = False  # iterate over sets in the opposite order
        self.arrays = False  # arrays of known integers by the model in sa/arrays.py
        self.models = False  # graphs by the model in sa/models, and loops on known conditions unrolled
        self.region = {}  # values of symbols which select the region of an order comparison between them
        self.probing = 0
        self.prog = prog
        self._opaque = opaque or (lambda f: False)
        self._inline = inline  # when given, only functions for which it is true are inlined
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.abstract_new = set(abstract_new)
        self.notes = set()
        self.funcs_seen = set()
        self.nsteps = 0
        self.npaths = 0
        self._const_cache = {}
        self.st = State()
        self.script, self.pos, self.taken, self.pending = [], 0, [], None
        self.stack = []
        self.cur = None

    # ------------------------------------------------------------ public
    def explore(self, func: Func, args=None, pre=None):
        """Enumerate the trace classes of ``func``. ``args`` overrides parameters; ``pre(interp)`` prepares the state."""
        out = []
        pending = [[]]
        while pending:
            script = pending.pop()
            self.st = State()
            from . import values
            values._oid[0] = 0
            self.script, self.pos, self.taken, self.pending = script, 0, [], pending
            self.stack = []
            self.npaths += 1
            if len(out) > self.max_paths:
                raise AnalysisError(f"too many paths in {func.qual}")
            if pre:
                pre(self)
            a = args(self) if callable(args) else dict(args or {})
            fr = self.entry_frame(func, a)
            raised = None
            try:
                kind, val, node = "return", self.run_func(func, fr), None
            except Raise_ as e:
                kind, val, node = "raise", (e.exc, tuple(freeze(x) for x in e.args_)), e.node
                raised = None if e.implicit and e.exc not in ("KeyError", "IndexError", "StopIteration", "ZeroDivisionError") else e.loc
            except Infeasible:
                continue
            out.append(Path(kind, val, tuple(self.st.guards), tuple(self.st.events), self.snapshot(), node, fr.env))
            out[-1].raised = raised
            out[-1].subst = dict(self.st.subst)
            out[-1].overlay = dict(self.st.overlay)
            out[-1].attrs = dict(self.st.attrs)
            out[-1].frozen = freeze(val) if kind == "return" else val
            out[-1].final_overlay = {k: freeze(v) for k, v in self.st.overlay.items()}
            out[-1].final_attrs = {k: freeze(v) for k, v in self.st.attrs.items()}
            out[-1].final_env = {k: freeze(v) for k, v in fr.env.items()}
            out[-1].final_args = {k: freeze(v) for k, v in a.items()}
        return out

    def entry_frame(self, func, args):
        fr = Frame(func, func.module, self.owner(func))
        self.st.heap.append(fr)
        ps = func.params
        for i, p in enumerate(ps):
            if p.arg in args:
                v = args[p.arg]
            elif i == 0 and func.cls is not None and not func.is_static:
                if func.is_classmethod:
                    v = func.cls
                else:
                    v = Term("var", p.arg, typ=("exact", func.cls))
            else:
                t = self.prog.parse_ann(func.module, p.annotation, func.cls)
                na = func.node.args
                if na.vararg is p:
                    v = Term("var", p.arg, typ=("seq", t, "tuple"))
                elif na.kwarg is p:
                    v = DictV(rest=[Splat(Term("var", p.arg))])
                else:
                    v = Term("var", p.arg, typ=t)
            fr.env[p.arg] = v
        return fr

    def owner(self, func):
        f = func
        while f is not None:
            if f.cls is not None:
                return f.cls
            f = f.parent
        return None

    # ------------------------------------------------------------ choice machinery
    def choose(self, n):
        if n == 1:
            return 0
        if self.probing:
            raise NotKnown
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
            for i in range(n - 1, 0, -1):
                self.pending.append([*self.taken, i])
        self.pos += 1
        self.taken.append(c)
        return c

    def snapshot(self):
        st = self.st
        snap = {}
        for f in State.FIELDS:
            v = getattr(st, f)
            snap[f] = v.copy()
        content = {}
        for o in st.heap:
            content[o.oid] = self._content(o)
        snap["content"] = content
        snap["objs"] = {o.oid: o for o in st.heap}
        snap["stack"] = list(self.stack)
        return snap

    @staticmethod
    def _content(o):
        if isinstance(o, Frame):
            return dict(o.env)
        if isinstance(o, ListV):
            return list(o.items)
        if isinstance(o, SetV):
            return o.term
        if isinstance(o, DictV):
            return (dict(o.items), list(o.rest))
        if isinstance(o, Inst):
            return dict(o.fields)
        return None

    @staticmethod
    def _set_content(o, c):
        if isinstance(o, Frame):
            o.env = dict(c)
        elif isinstance(o, ListV):
            o.items = list(c)
        elif isinstance(o, SetV):
            o.term = c
        elif isinstance(o, DictV):
            o.items, o.rest = dict(c[0]), list(c[1])
        elif isinstance(o, Inst):
            o.fields = dict(c)

    def restore(self, snap):
        for f in State.FIELDS:
            setattr(self.st, f, snap[f].copy())
        for oid, o in snap["objs"].items():
            self._set_content(o, snap["content"][oid])
        self.stack = list(snap["stack"])

    def new(self, o):
        self.st.heap.append(o)
        return o

    def mklist(self, items=(), kind="list"):
        return self.new(ListV(items, kind))

    def mkset(self, term):
        return self.new(SetV(term))

    def mkdict(self, items=None, rest=()):
        return self.new(DictV(items, rest))

    def sub_explore(self, thunk):
        base = self.snapshot()
        saved = (self.script, self.pos, self.taken, self.pending)
        ng, ne = len(self.st.guards), len(self.st.events)
        results = []
        pending = [[]]
        while pending:
            script = pending.pop()
            self.restore(base)
            self.script, self.pos, self.taken, self.pending = script, 0, [], pending
            if len(results) > self.max_paths:
                raise AnalysisError("too many paths in a loop")
            val, node = None, None
            try:
                val = thunk()
                kind = "next"
            except Continue_:
                kind = "next"
            except Break_:
                kind = "break"
            except Return_ as e:
                kind, val = "return", e.value
            except Raise_ as e:
                kind, val, node = "raise", e, e.node
            except Infeasible:
                continue
            gs = tuple(self.st.guards[ng:])
            evs = tuple(self.rebase_event(e, ng) for e in self.st.events[ne:])
            results.append(Sub(kind, val, gs, evs, self.snapshot(), node))
        self.restore(base)
        self.script, self.pos, self.taken, self.pending = saved
        return results

    @staticmethod
    def rebase_event(e, ng):
        return Event(e.kind, e.name, e.args, max(0, e.nguards - ng), e.loc, e.value, e.subs, e.ctx, e.extra)

    # ------------------------------------------------------------ facts
    def add_guard(self, atom, val):
        self.st.guards.append((atom, val))

    def event(self, kind, name, args, node=None, value=None, subs=None, ctx=None, extra=None):
        loc = self.cur.loc(node) if self.cur is not None and node is not None else ""
        e = Event(kind, name, args, len(self.st.guards), loc, value, subs, ctx, extra)
        self.st.events.append(e)
        return e

    def rd(self, v):
        """Read a value: apply what the trace knows about a term."""
        n = 0
        while isinstance(v, Term) and n < 8:
            if v in self.st.overlay:
                return self.st.overlay[v]
            if v in self.st.subst:
                v = self.st.subst[v]
                n += 1
                continue
            if v.op == "obj":
                return OBJECTS.get(v.args[1], v)
            break
        return v

    def alts(self, t: Term):
        """Possible concrete types of a term, as a tuple of types, or None."""
        if t in self.st.narrow:
            return self.st.narrow[t]
        typ = t.typ
        if t.op == "new":
            c = self.prog.classes.get(t.args[0])
            return (("exact", c),) if c else None
        if typ is None:
            return None
        out = []
        for x in typ[1] if typ[0] == "uni" else [typ]:
            if x[0] == "any" or x[0] == "tvar":
                return None
            if x[0] == "cls":
                c = x[1]
                if c.is_enum:
                    out.append(("enum", c))
                    continue
                cands = [c, *c.subclasses()]
                conc = [k for k in cands if not k.is_abstract and not _is_protocol(k)]
                if not conc:
                    out.append(x)
                out.extend(("exact", k) for k in conc)
            elif x[0] == "lit":
                out.append(("enum", x[1]))
            else:
                out.append(x)
        res = []
        for x in out:
            if x not in res:
                res.append(x)
        return tuple(res)

    def set_narrow(self, t, alts, label=None):
        self.st.narrow[t] = tuple(alts)
        if not alts:
            raise Infeasible
        if len(alts) == 1 and alts[0] == ("none",):
            self.st.subst[t] = None

    def enum_left(self, t: Term):
        key = ("enumleft", t)
        if key in self.st.narrow:
            return self.st.narrow[key]
        typ = t.typ
        if typ is None:
            return None
        names = None
        for x in typ[1] if typ[0] == "uni" else [typ]:
            if x[0] == "lit":
                names = (names or ()) + tuple((x[1], n) for n in x[2])
            elif x[0] == "cls" and x[1].is_enum:
                names = (names or ()) + tuple((x[1], n) for n in x[1].enum_members())
            elif x[0] == "none":
                pass
            else:
                return None
        return names

    def pick_class(self, t: Term, alts):
        """Fork on the concrete class of a term. Returns the chosen type."""
        i = self.choose(len(alts))
        self.set_narrow(t, (alts[i],))
        self.add_guard(Term("class", t), type_label(alts[i]))
        return alts[i]

    # ------------------------------------------------------------ truth
    def truth(self, v) -> bool:
        v = self.rd(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_num(v) or isinstance(v, (float, str, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (EnumVal,)):
            m = v.cls.find_method("__bool__")
            if m:
                return self.truth(self.call_func(m, [v], {}))
            return True
        if isinstance(v, ListV):
            if any(not isinstance(x, Splat) for x in v.items):
                return True
            if not v.items:
                return False
            return any([self.decide(self.truthy_atom(x.term)) for x in v.items[:1]]) or (len(v.items) > 1 and any(self.decide(self.truthy_atom(x.term)) for x in v.items[1:]))
        if isinstance(v, SetV):
            return self.decide(self.truthy_atom(v.term))
        if isinstance(v, DictV):
            if v.items:
                return True
            if not v.rest:
                return False
            return any(self.decide(self.truthy_atom(x.term)) for x in v.rest)
        if isinstance(v, Inst):
            for mn in ("__bool__", "__len__"):
                m = v.cls.find_method(mn)
                if m:
                    return self.truth(self.call_func(m, [v], {}))
            return True
        if isinstance(v, Term):
            return self.decide(self.truthy_atom(v))
        return True

    def truthy_atom(self, t):
        """Boolean atom for the truth value of a term."""
        if not isinstance(t, Term):
            if isinstance(t, tuple) or t is None or is_const(t):
                return bool(t)
            return True
        if t.op in ("eq", "in", "lt0", "isnone", "isinst", "truthy", "exists", "not", "bxor", "opaquecond"):
            return t
        if t.op in ("setlit", "list"):
            if t.op == "list" and all(isinstance(x, Term) and x.op == "splat" for x in t.args):
                if not t.args:
                    return False
                if len(t.args) == 1:
                    return self.truthy_atom(t.args[0].args[0])
            else:
                return bool(t.args[0]) if t.op == "setlit" else True
        if t.op == "comp":
            alts = t.args[0]
            ctxs = {a[0] for a in alts}
            if len(ctxs) == 1:
                return mk_exists(next(iter(ctxs)), [a[1] for a in alts if a[2]])
        if t.op == "or" :
            pass
        if t.op in ("set", "sorted", "lst", "reversed"):
            return self.truthy_atom(t.args[0])
        if t.op == "poly":
            return Term("not", Term("eq", *sorted((t, 0), key=show), typ=BOOLT))
        if t.typ == BOOLT:
            return t
        if t.op == "len":
            return self.truthy_atom(t.args[0])
        alts = self.alts(t)
        if alts is not None:
            if all(self._always_true(x) for x in alts):
                return True
            if all(x == ("none",) for x in alts):
                return False
            if all(x == ("none",) or self._always_true(x) for x in alts):
                return Term("not", Term("isnone", t, typ=BOOLT))
            if all(x[0] == "prim" and x[1] in ("int", "float") for x in alts):
                return Term("not", Term("eq", *sorted((t, 0), key=show), typ=BOOLT))
        return Term("truthy", t, typ=BOOLT)

    def _always_true(self, x):
        if x[0] in ("exact", "cls", "enum"):
            c = x[1]
            return not (c.find_method("__bool__") or c.find_method("__len__"))
        return x[0] in ("callable",)

    def decide(self, atom) -> bool:
        neg = False
        while isinstance(atom, Term) and atom.op == "not":
            neg = not neg
            atom = atom.args[0]
        if not isinstance(atom, Term):
            return bool(atom) != neg
        r = self._decide_pos(atom)
        return r != neg

    def _decide_pos(self, atom) -> bool:
        k = self.st.known.get(atom)
        if k is not None:
            return k
        if atom.op == "class":
            raise AnalysisError("class atom")
        s = self.implied(atom)
        if s is not None:
            return s
        if self.region:
            s = self.in_region(atom)
            if s is not None:
                self.assume(atom, s)
                return s
        if atom.op == "isnone":
            t = atom.args[0]
            alts = self.alts(t)
            r = self.choose(2) == 0
            self.assume(atom, r)
            if alts is not None:
                self.set_narrow(t, [a for a in alts if (a == ("none",)) == r])
            if r:
                self.st.subst[t] = None
            return r
        r = self.choose(2) == 0
        self.assume(atom, r)
        return r

    def in_region(self, atom):
        """Order comparisons of known symbols, in the region the analysis is restricted to; None for the others."""
        if atom.op != "lt0":
            return None
        total = Fraction(0)
        for m, c in to_poly(atom.args[0]).items():
            for at, p in m:
                if at not in self.region or p < 0:
                    return None
                c = c * self.region[at] ** p
            total += c
        return total < 0

    def implied(self, atom):
        op = atom.op
        if op == "eq":
            a, b = atom.args
            for x, y in ((a, b), (b, a)):
                if isinstance(y, EnumVal) and isinstance(x, Term):
                    left = self.enum_left(x)
                    if left is not None:
                        if (y.cls, y.name) not in left:
                            return False
                        if len(left) == 1 and self.notnone(x):
                            return True
        if op == "isnone":
            alts = self.alts(atom.args[0])
            if alts is not None:
                if all(a == ("none",) for a in alts):
                    return True
                if ("none",) not in alts and all(a[0] not in ("any", "tvar", "ext") for a in alts):
                    return False
        if op == "lt0":
            # strict order facts: d<0 contradicts -d<0
            m = Term("lt0", pmul(-1, atom.args[0]), typ=BOOLT)
            if self.st.known.get(m) is True:
                return False
        if op in ("in", "truthy"):
            s = atom.args[-1]
            if s == EMPTY:
                return False
        if op == "in":
            x, s = atom.args
            if isinstance(s, Term) and s.op == "and":
                vs = [self.st.known.get(Term("in", x, p)) for p in s.args[0]]
                if any(v is False for v in vs):
                    return False
                if all(v is True for v in vs):
                    return True
            if isinstance(s, Term) and s.op == "setminus":
                v1 = self.st.known.get(Term("in", x, s.args[0]))
                v2 = self.st.known.get(Term("in", x, s.args[1]))
                if v1 is False or v2 is True:
                    return False
                if v1 is True and v2 is False:
                    return True
            if isinstance(x, Term) and x.op == "elem" and self.same_members(x.args[0], s):
                return True
        if op == "truthy":
            s = atom.args[0]
            # an element of s is known
            for a, v in self.st.known.items():
                if v and a.op == "in" and a.args[1] == s:
                    return True
        return None

    def same_members(self, a, b):
        while isinstance(a, Term) and a.op in ("set", "sorted", "lst", "reversed"):
            a = a.args[0]
        while isinstance(b, Term) and b.op in ("set", "sorted", "lst", "reversed"):
            b = b.args[0]
        if a == b:
            return True
        if isinstance(b, Term) and b.op == "or":
            return a in b.args[0]
        if isinstance(a, Term) and a.op == "and":
            return any(self.same_members(x, b) for x in a.args[0])
        if isinstance(a, Term) and a.op == "setminus":
            return self.same_members(a.args[0], b)
        return False

    def notnone(self, t):
        alts = self.alts(t)
        return alts is not None and ("none",) not in alts

    def assume(self, atom, r):
        self.st.known[atom] = r
        self.add_guard(atom, r)
        if atom.op == "eq":
            a, b = atom.args
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Term) and not isinstance(y, Term) and is_const(y):
                    if isinstance(y, EnumVal):
                        left = self.enum_left(x)
                        if r:
                            self.st.narrow["enumleft", x] = ((y.cls, y.name),)
                        elif left is not None:
                            left = tuple(n for n in left if n != (y.cls, y.name))
                            self.st.narrow["enumleft", x] = left
                            if len(left) == 1 and self.notnone(x):
                                self.st.subst[x] = EnumVal(*left[0])
                            if not left and self.notnone(x):
                                raise Infeasible
                    if r and x.op not in ("poly",):
                        self.st.subst[x] = y
                    break
        elif atom.typ == BOOLT and atom.op not in ("in", "lt0", "truthy", "exists", "isinst"):
            self.st.subst[atom] = r

    # ------------------------------------------------------------ comparisons
    def equal(self, a, b):
        """Equality as a value: bool or atom."""
        a, b = self.rd(a), self.rd(b)
        if a is b:
            return True
        if isinstance(a, (Class, Func, Module)) or isinstance(b, (Class, Func, Module)):
            if isinstance(a, Term) or isinstance(b, Term):
                return self.eq_atom(freeze(a), freeze(b))
            return a is b
        if isinstance(a, (ListV, tuple)) and isinstance(b, (ListV, tuple)):
            ia = list(a.items) if isinstance(a, ListV) else list(a)
            ib = list(b.items) if isinstance(b, ListV) else list(b)
            if not any(isinstance(x, Splat) for x in ia + ib):
                if len(ia) != len(ib):
                    return False
                atoms = [self.equal(x, y) for x, y in zip(ia, ib)]
                return self.conj(atoms)
        if isinstance(a, EnumVal) and isinstance(b, EnumVal):
            return a == b
        if self.arrays and isinstance(a, Ext) and isinstance(b, Ext) and {a.name, b.name} <= NUMPY_TYPES:
            return a.name == b.name
        if isinstance(a, bool) and is_num(b) or isinstance(b, bool) and is_num(a) or (isinstance(a, bool) and isinstance(b, bool)):
            return int(a) == int(b)
        if (is_num(a) or isinstance(a, float)) and (is_num(b) or isinstance(b, float)):
            return a == b
        if is_const(a) and is_const(b):
            return type(a) is type(b) and a == b
        if isinstance(a, (SetV, DictV)) and isinstance(b, (SetV, DictV)) and (isinstance(a, SetV) or isinstance(b, SetV)):
            x, y = self.set_term(a), self.set_term(b)
            if (known_set(x) or x == EMPTY) and (known_set(y) or y == EMPTY):
                return x == y
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is not b.cls:
            return False
        if isinstance(a, Inst) and is_const(b) or isinstance(b, Inst) and is_const(a):
            return False
        if isinstance(a, Inst) and isinstance(b, Inst) and (a.cls.is_dataclass):
            return self.conj([self.equal(a.fields[k], b.fields.get(k)) for k in a.fields])
        return self.eq_atom(freeze(a), freeze(b))

    def conj(self, atoms):
        rest = [x for x in atoms if x is not True]
        if any(x is False for x in rest):
            return False
        if not rest:
            return True
        if len(rest) == 1:
            return rest[0]
        for x in rest:
            if not self.decide(x):
                return False
        return True

    def eq_atom(self, a, b):
        if a == b:
            return True
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "obj":
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.equal(x, y) for x, y in zip(a, b)])
        if isinstance(a, Term) and isinstance(b, tuple) or isinstance(a, tuple) and isinstance(b, Term):
            t, p = (a, b) if isinstance(a, Term) else (b, a)
            if t.typ and t.typ[0] == "tup" and len(t.typ[1]) == len(p):
                return self.conj([self.equal(self.getitem(t, i), x) for i, x in enumerate(p)])
        if a is None or b is None:
            t = b if a is None else a
            if isinstance(t, Term) and t.op != "lambda":
                if t.op in ("imag", "poly", "obj"):
                    return False
                return Term("isnone", t, typ=BOOLT)
            return False
        num = lambda v: is_num(v) or (isinstance(v, Term) and (v.op in ("poly", "len", "sum", "mod", "floordiv", "index") or v.typ in (INTT, FLOATT)))
        if num(a) and num(b):
            d = padd(a, b, -1)
            if is_num(d):
                return d == 0
            pd = to_poly(d)
            if len(pd) == 1 and not is_num(a) and not is_num(b):
                pass
            # normalise sign and scale: eq(d,0) unless it is a plain comparison to a constant
            c0 = pd.pop((), Fraction(0))
            if len(pd) == 1:
                (m, c), = pd.items()
                if len(m) == 1 and m[0][1] == 1:
                    t = m[0][0]
                    v = -c0 / c
                    v = int(v) if v.denominator == 1 else v
                    if isinstance(t, Term) and t.op == "len" and v == 0:
                        ta = self.truthy_atom(t.args[0])
                        return Term("not", ta) if isinstance(ta, Term) else not ta
                    if isinstance(t, Term) and t.op == "mod" and t.args[1] == 2 and v == 1:
                        x = Term("eq", *sorted((t, 0), key=show), typ=BOOLT)
                        return Term("not", x)
                    a, b = t, v
            else:
                lead = sorted(pd.items(), key=lambda kv: show(kv[0]))[0][1]
                if lead < 0:
                    d = pmul(-1, d)
                # two variable equality a - b
                if len(pd) == 2 and c0 == 0:
                    vals = list(pd.items())
                    if vals[0][1] == -vals[1][1] and all(len(m) == 1 and m[0][1] == 1 for m, _ in vals):
                        a, b = vals[0][0][0][0], vals[1][0][0][0]
                    else:
                        a, b = d, 0
                else:
                    a, b = d, 0
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "setlit" and all(is_const(x) for x in (*a.args[0], *b.args[0])):
            return a.args[0] == b.args[0]
        if isinstance(a, Term) and a.op == "setlit" and not a.args[0] or isinstance(b, Term) and b.op == "setlit" and not b.args[0]:
            t = b if (isinstance(a, Term) and a.op == "setlit" and not a.args[0]) else a
            ta = self.truthy_atom(t)
            return Term("not", ta) if isinstance(ta, Term) else not ta
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and isinstance(y, bool) and x.typ == BOOLT:
                return self.truthy_atom(x) if y else Term("not", self.truthy_atom(x))
            if isinstance(x, Term) and x.typ == BOOLT and is_num(y) and y in (0, 1):
                return self.truthy_atom(x) if y else Term("not", self.truthy_atom(x))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and isinstance(y, EnumVal):
                left = self.enum_left(x)
                if left is not None and (y.cls, y.name) not in left:
                    return False
            if isinstance(x, Term) and x.op == "list" and not x.args and isinstance(y, Term):
                ta = self.truthy_atom(y)
                return Term("not", ta) if isinstance(ta, Term) else not ta
        return Term("eq", *sorted((a, b), key=show), typ=BOOLT)

    def less(self, a, b):
        """a < b as bool or atom."""
        a, b = self.rd(a), self.rd(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if (is_num(a) or isinstance(a, float)) and (is_num(b) or isinstance(b, float)):
            return a < b
        if self.is_set(a) or self.is_set(b):
            x, y = self.set_term(a), self.set_term(b)
            if known_set(x) and known_set(y):
                return x.args[0] < y.args[0]
            return Term("psubset", self.set_term(a), self.set_term(b), typ=BOOLT)
        fa, fb = freeze(a), freeze(b)
        d = padd(fa, fb, -1)
        if is_num(d):
            return d < 0
        pd = to_poly(d)
        c0 = pd.pop((), Fraction(0))
        if len(pd) == 1:
            (m, c), = pd.items()
            if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], Term) and m[0][0].op == "len":
                x = m[0][0].args[0]
                # c*len + c0 < 0
                if c > 0:
                    if -c0 / c <= 0:
                        return False
                    if -c0 / c <= 1:
                        ta = self.truthy_atom(x)
                        return Term("not", ta) if isinstance(ta, Term) else not ta
                elif c < 0:
                    thr = -c0 / c  # len > thr
                    if thr < 0:
                        return True
                    if 0 <= thr < 1:
                        return self.truthy_atom(x)
        return Term("lt0", d, typ=BOOLT)

    def compare(self, op, a, b, node):
        neg = lambda x: Term("not", x) if isinstance(x, Term) and x.op != "not" else (x.args[0] if isinstance(x, Term) else not x)
        if isinstance(op, ast.Eq):
            m = self.dunder(a, "__eq__")
            if m:
                return self.call_func(m, [a, b], {})
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            m = self.dunder(a, "__eq__")
            if m:
                return not self.truth(self.call_func(m, [a, b], {}))
            return neg(self.equal(a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            a, b = self.rd(a), self.rd(b)
            if isinstance(a, Obj) and isinstance(b, Obj):
                r = a is b
            elif isinstance(a, Obj) or isinstance(b, Obj):
                o = b if isinstance(a, Obj) else a
                r = False if (o is None or is_const(o) or isinstance(o, (Class, Ext, tuple))) else Term("is", freeze(a), freeze(b), typ=BOOLT)
            else:
                r = self.equal(a, b)
            return neg(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return neg(r) if isinstance(op, ast.NotIn) else r
        a, b = self.rd(a), self.rd(b)
        names = {ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"), ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}[type(op)]
        for x, y, nm in ((a, b, names[0]), (b, a, names[1])):
            if isinstance(x, Inst) and (m := self.dunder(x, nm)):
                return self.call_func(m, [x, y], {})
        if isinstance(op, (ast.LtE, ast.GtE)) and (self.is_set(a) or self.is_set(b)):
            x, y = (a, b) if isinstance(op, ast.LtE) else (b, a)
            d = minus_norm(self.set_term(x), self.set_term(y))
            return neg(self.truthy_atom(d))
        if isinstance(op, ast.Lt):
            return self.less(a, b)
        if isinstance(op, ast.Gt):
            return self.less(b, a)
        if isinstance(op, ast.LtE):
            return neg(self.less(b, a))
        return neg(self.less(a, b))

    def dunder(self, a, name):
        a = self.rd(a)
        if isinstance(a, (Inst, EnumVal)):
            m = a.cls.find_method(name)
            if m and not self.is_opaque(m):
                return m
        return None

    def is_set(self, v):
        if isinstance(v, SetV):
            return True
        if isinstance(v, Term):
            if v.op in ("xor", "or", "and", "setlit", "setminus", "set"):
                return True
            t = v.typ
            if t and t[0] == "uni":
                ts = [x for x in t[1] if x != ("none",)]
                return bool(ts) and all(x[0] == "set" for x in ts)
            return bool(t) and t[0] == "set"
        if isinstance(v, BoundBuiltin):
            return False
        return False

    def set_term(self, v, content=True):
        """Term of a collection considered as a set."""
        v = self.rd(v) if content else self.rds(v)
        if isinstance(v, Inst) and v.cls.find_method("__iter__"):
            segs = self.segments(v)
            if all(g[0] == "item" for g in segs):
                return Term("setlit", frozenset(freeze(g[1]) for g in segs)) if segs else EMPTY
        if isinstance(v, SetV):
            return v.term
        if isinstance(v, DictV):
            ts = [Term("setlit", frozenset(freeze(k) for k, _ in v.items.values()))] if v.items else []
            ts += [r.term for r in v.rest]
            return or_norm(ts) if ts else EMPTY
        if isinstance(v, (ListV, tuple)):
            its = v.items if isinstance(v, ListV) else v
            lits = frozenset(freeze(x) for x in its if not isinstance(x, Splat))
            ts = ([Term("setlit", lits)] if lits else []) + [self.set_term(x.term, False) for x in its if isinstance(x, Splat)]
            return or_norm(ts) if ts else EMPTY
        if isinstance(v, Term):
            if v.op in ("set", "sorted", "lst", "reversed"):
                return self.set_term(v.args[0], content)
            if v.op == "list":
                lits = frozenset(x for x in v.args if not (isinstance(x, Term) and x.op == "splat"))
                ts = ([Term("setlit", lits)] if lits else []) + [self.set_term(x.args[0], False) for x in v.args if isinstance(x, Term) and x.op == "splat"]
                return or_norm(ts) if ts else EMPTY
            if v.op == "comp":
                return norm_comp_set(v)
            return v
        if isinstance(v, Class) and v.is_enum:
            return Term("setlit", frozenset(EnumVal(v, n) for n in v.enum_members()))
        return freeze(v)

    def contains(self, x, s):
        s = self.rd(s)
        x = self.rd(x)
        if isinstance(s, str) and isinstance(x, str):
            return x in s
        if isinstance(s, Inst):
            m = s.cls.find_method("__contains__")
            if m:
                return self.truth(self.call_func(m, [s, x], {}))
        if isinstance(s, (ListV, tuple)) and not any(isinstance(i, Splat) for i in (s.items if isinstance(s, ListV) else s)):
            its = s.items if isinstance(s, ListV) else s
            return self.disj([self.equal(x, i) for i in its])
        if isinstance(s, DictV) and s.exact:
            k = freeze(x)
            if k in s.items:
                return True
            return self.disj([self.equal(x, kk) for kk, _ in s.items.values()])
        return self.contains_term(x, self.set_term(s))

    def contains_term(self, x, t):
        if isinstance(t, Term) and t.op == "setlit":
            fx = freeze(x)
            if fx in t.args[0]:
                return True
            return self.disj([self.equal(x, i) for i in sorted(t.args[0], key=show)])
        if isinstance(t, Term) and t.op == "or":
            # normalise membership in a union
            return self.disj([self.contains_term(x, p) for p in sorted(t.args[0], key=show)])
        if isinstance(t, Term) and t.op == "and":
            return self.conj([self.contains_term(x, p) for p in sorted(t.args[0], key=show)])
        if isinstance(t, Term) and t.op == "setminus":
            return self.conj([self.contains_term(x, t.args[0]), self.negv(self.contains_term(x, t.args[1]))])
        return Term("in", freeze(x), t, typ=BOOLT)

    @staticmethod
    def negv(x):
        if isinstance(x, Term):
            return x.args[0] if x.op == "not" else Term("not", x)
        return not x

    def disj(self, atoms):
        rest = [x for x in atoms if x is not False]
        if any(x is True for x in rest):
            return True
        if not rest:
            return False
        if len(rest) == 1:
            return rest[0]
        for x in rest:
            if self.decide(x):
                return True
        return False

    # ------------------------------------------------------------ running functions
    def run_func(self, func: Func, fr: Frame):
        self.funcs_seen.add(func.qual)
        if len(self.stack) > 60:
            raise AnalysisError(f"inlining too deep at {func.qual}")
        self.stack.append(fr)
        prev, self.cur = self.cur, func
        try:
            if isinstance(func.node, ast.Lambda):
                return self.eval(func.node.body)
            if func.is_generator:
                fr.yields = self.mklist(kind="gen")
            try:
                self.block(func.node.body)
            except Return_ as r:
                if func.is_generator:
                    return fr.yields
                return r.value
            return fr.yields if func.is_generator else None
        except Raise_ as e:
            e.loc = e.loc or func.loc(e.node)
            raise
        finally:
            self.stack.pop()
            self.cur = prev

    @property
    def fr(self) -> Frame:
        return self.stack[-1]

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.nsteps += 1
        if self.nsteps > self.max_steps:
            raise AnalysisError(f"analysis budget exceeded in {self.cur.qual}")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"statement {type(s).__name__} not handled at {self.cur.loc(s)}")
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            r = self.prog.lookup_dotted(a.name if a.asname else a.name.split(".")[0])
            self.fr.env[n] = self.ent(r)

    def s_ImportFrom(self, s):
        for a in s.names:
            self.fr.env[a.asname or a.name] = self.ent(self.prog.lookup_dotted(f"{s.module}.{a.name}"))

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Return(self, s):
        raise Return_(self.eval(s.value) if s.value else None)

    def s_Break(self, s):
        raise Break_

    def s_Continue(self, s):
        raise Continue_

    def s_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            raise Raise_("AssertionError", (), s)

    def s_Raise(self, s):
        try:
            self.raise_(s)
        except Raise_ as e:
            e.loc = e.loc or (self.cur.loc(s) if self.cur is not None else "")
            raise

    def raise_(self, s):
        if s.exc is None:
            cur = getattr(self.fr, "handling", None)
            raise cur if cur is not None else Raise_("?", (), s)
        v = self.rd(self.eval(s.exc))
        self.do_raise(v, s)

    def do_raise(self, v, s):
        if isinstance(v, Inst):
            raise Raise_(v.cls.name, tuple(v.fields.values()), s)
        if isinstance(v, Class):
            raise Raise_(v.name, (), s)
        if isinstance(v, Ext):
            raise Raise_(v.name.split(".")[-1], (), s)
        if isinstance(v, Term) and v.op == "exc":
            raise Raise_(v.args[0], v.args[1:], s)
        raise Raise_("?", (v,), s)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                k = self.eval_index(t.slice)
                self.delitem(b, k, t)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                self.event("delattr", t.attr, {"obj": freeze(b)}, t)

    def s_FunctionDef(self, s):
        f = self.find_nested(s)
        self.fr.env[s.name] = FuncVal(f, closure=self.fr, cls_ctx=self.fr.cls)

    def find_nested(self, s):
        for f in self.prog.funcs.values():
            if f.node is s:
                return f
        f = Func(s.name, f"{self.cur.qual}.<locals>.{s.name}", s, self.cur.module, None, self.cur)
        return f

    def s_ClassDef(self, s):
        self.fr.env[s.name] = Ext(f"localclass.{s.name}")

    def s_If(self, s):
        if self.truth(self.eval(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is None:
            return
        v = self.eval(s.value)
        t = self.prog.parse_ann(self.cur.module, s.annotation, self.fr.cls)
        if isinstance(v, Term) and v.typ is None and t != ANY_T:
            v = Term(v.op, *v.args, typ=t)
        self.assign(s.target, v)

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, s)
        elif isinstance(s.target, ast.Attribute):
            base = self.eval(s.target.value)
            cur = self.getattr(base, s.target.attr, s)
        else:
            base = self.eval(s.target.value)
            idx = self.eval_index(s.target.slice)
            cur = self.getitem(base, idx, s)
        rhs = self.eval(s.value)
        cur = self.rd(cur)
        op = s.op
        # in place on containers
        if isinstance(cur, Term) and self.is_set(cur) and isinstance(op, (ast.BitXor, ast.BitOr, ast.BitAnd, ast.Sub)):
            t = cur.typ
            if not (t and t[0] == "set" and t[2] in ("frozenset", "AbstractSet", "FrozenSet", "Set")) and cur.op not in ("xor", "or", "and", "setlit", "setminus"):
                cur = self.materialise(cur)
        elif isinstance(cur, Term) and isinstance(op, ast.Add) and cur.typ and cur.typ[0] == "seq" and cur.typ[2] == "list":
            cur = self.materialise(cur)
        if isinstance(cur, SetV) and not cur.frozen and isinstance(op, (ast.BitXor, ast.BitOr, ast.BitAnd, ast.Sub)):
            n = {ast.BitXor: "symmetric_difference_update", ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update"}[type(op)]
            self.set_method(cur, n, [rhs], s)
            v = cur
        elif isinstance(cur, ListV) and cur.kind == "list" and isinstance(op, ast.Add):
            self.list_method(cur, "extend", [rhs], {}, s)
            v = cur
        elif isinstance(cur, DictV) and isinstance(op, ast.BitOr):
            self.dict_method(cur, "update", [rhs], {}, s)
            v = cur
        elif isinstance(cur, Inst) and (m := cur.cls.find_method(f"__i{self.DUNDERS[type(op)]}__")) is not None:
            v = self.call_func(m, [cur, rhs], {}, s)
        else:
            v = self.binop(op, cur, rhs, s)
        if isinstance(s.target, ast.Name):
            self.assign(s.target, v)
        elif isinstance(s.target, ast.Attribute):
            self.setattr(base, s.target.attr, v, s)
        else:
            self.setitem(base, idx, v, s)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.fr
            fn = self.cur.node
            if not isinstance(fn, ast.Lambda):
                for n in fn._nonlocals if hasattr(fn, "_nonlocals") else self._scan_nonlocals(fn):
                    if n == t.id:
                        f2 = fr.parent
                        while f2 is not None:
                            if n in f2.env:
                                f2.env[n] = v
                                return
                            f2 = f2.parent
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, x)
                else:
                    self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript) and (r := self.own_dict(t)):
            r[0].fields[r[1]] = v
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError(f"assignment target {type(t).__name__}")

    def _scan_nonlocals(self, fn):
        out = []
        from .program import walk_own
        for n in walk_own(fn):
            if isinstance(n, ast.Nonlocal):
                out.extend(n.names)
        fn._nonlocals = tuple(out)
        return fn._nonlocals

    def unpack(self, v, elts):
        v = self.rd(v)
        n = len(elts)
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        items = None
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, ListV) and v.exact:
            items = list(v.items)
        elif isinstance(v, SetV) and known_set(v.term):
            items = sorted(v.term.args[0], key=order, reverse=self.reverse_sets)
        elif isinstance(v, Term) and known_set(v):
            items = sorted(v.args[0], key=order, reverse=self.reverse_sets)
        elif isinstance(v, Inst) and v.cls.is_namedtuple:
            items = list(v.fields.values())
        elif isinstance(v, Inst) and v.cls.find_method("__iter__"):
            r = self.call_func(v.cls.find_method("__iter__"), [v], {})
            return self.unpack(r, elts)
        elif isinstance(v, Term) and v.op == "new":
            c = self.prog.classes.get(v.args[0])
            if c and c.is_namedtuple:
                items = [x for _, x in v.args[1]]
        if items is not None:
            if star is None:
                if len(items) != n:
                    raise Raise_("ValueError", ("unpack",), None, True)
                return items
            tail = n - star - 1
            if len(items) < n - 1:
                raise Raise_("ValueError", ("unpack",), None, True)
            return [*items[:star], self.mklist(items[star : len(items) - tail]), *items[len(items) - tail :]] if tail else [*items[:star], self.mklist(items[star:])]
        if isinstance(v, Term):
            alts = self.alts(v)
            if alts:
                for x in alts:
                    if x[0] == "exact" and x[1].is_namedtuple:
                        return [self.getattr(v, f[0]) for f in x[1].fields()]
        if star is not None:
            return [self.getitem(v, i) for i in range(star)] + [Term("rest", freeze(v), star)] + [self.getitem(v, i - n) for i in range(star + 1, n)]
        return [self.getitem(v, i) for i in range(n)]

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            self.event("with", show(freeze(v)) if not isinstance(v, Term) else v.op, {"ctx": freeze(v)}, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Term("enter", freeze(v), typ=v.typ if isinstance(v, Term) else None))
        self.block(s.body)

    def s_Try(self, s):
        # an exception of something opaque in the body is a separate trace class when it is handled
        if s.handlers and not self.models:
            opts = [None, *[h for h in s.handlers]]
            if self._only_lookup(s.body):
                opts = [None]
            i = self.choose(len(opts)) if len(opts) > 1 else 0
            if i:
                h = opts[i]
                self.add_guard(Term("raises", Term("node", ast.unparse(s.body[0]) if s.body else "")), ast.unparse(h.type) if h.type else "any")
                for st in s.body:
                    for nm in assigned_names([st]):
                        self.fr.env[nm] = Term("unbound", nm)
                self.run_handler(h, Raise_(_hname(h), (), s))
                if s.finalbody:
                    self.block(s.finalbody)
                return
        try:
            try:
                self.block(s.body)
            except Raise_ as e:
                for h in s.handlers:
                    if self.handler_matches(h, e):
                        self.run_handler(h, e)
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        finally:
            if s.finalbody:
                self.block(s.finalbody)

    def _only_lookup(self, body):
        """Only subscripts of abstract dicts: the interpreter itself raises KeyError."""
        return False

    def run_handler(self, h, e):
        if h.name:
            self.fr.env[h.name] = Term("exc", e.exc, *[freeze(a) for a in e.args_])
        old = getattr(self.fr, "handling", None)
        self.fr.handling = e
        try:
            self.block(h.body)
        finally:
            self.fr.handling = old

    def handler_matches(self, h, e):
        if h.type is None:
            return True
        names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        bases = {e.exc, *EXC_BASES.get(e.exc, ("Exception",))}
        for c in self.prog.classes.values():
            if c.name == e.exc:
                bases |= {b.name for b in c.mro()} | {b.split(".")[-1] for b in c.external_bases()}
                for b in list(bases):
                    bases |= set(EXC_BASES.get(b, ()))
        return bool(bases & set(names)) or "Exception" in names or "BaseException" in names

    # ------------------------------------------------------------ match
    def s_Match(self, s):
        v = self.eval(s.subject)
        for c in s.cases:
            binds = {}
            if self.pmatch(c.pattern, v, binds):
                saved = {k: self.fr.env.get(k) for k in binds}
                self.fr.env.update(binds)
                if c.guard is None or self.truth(self.eval(c.guard)):
                    self.block(c.body)
                    return
                self.fr.env.update({k: x for k, x in saved.items() if x is not None})

    def pmatch(self, p, v, binds) -> bool:
        v = self.rd(v)
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.eval(p.value), p))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is(), v, p.value, p))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pmatch(p.pattern, v, binds):
                return False
            if p.name:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pmatch(x, v, binds) for x in p.patterns)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls)
            if not self.truth(self.isinstance(v, c)):
                return False
            v = self.rd(v)
            names = []
            if p.patterns:
                if isinstance(c, Class):
                    ma = c.find_assign("__match_args__")
                    names = [e.value for e in ma[1].elts] if ma and isinstance(ma[1], ast.Tuple) else [f[0] for f in c.fields()]
                    if not names and c.find_ann("__match_args__"):
                        names = []
                else:
                    return self.pmatch(p.patterns[0], v, binds)
            if len(p.patterns) > len(names):
                raise AnalysisError(f"positional class pattern at {self.cur.loc(p)}")
            for n, sp in [*zip(names, p.patterns), *zip(p.kwd_attrs, p.kwd_patterns)]:
                if not self.pmatch(sp, self.getattr(v, n, p), binds):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            n = len(p.patterns)
            star = next((i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)), None)
            items = list(v) if isinstance(v, tuple) else list(v.items) if isinstance(v, ListV) and v.exact else None
            if items is not None:
                if star is None and len(items) != n or star is not None and len(items) < n - 1:
                    return False
            else:
                if is_const(v):
                    return False
                if isinstance(v, Term) and v.typ and v.typ[0] == "tup":
                    if star is None and len(v.typ[1]) != n:
                        return False
                else:
                    a = self.equal(Term("len", freeze(v), typ=INTT), n) if star is None else self.negv(self.less(Term("len", freeze(v), typ=INTT), n - 1))
                    if not self.truth(a):
                        return False
            for i, x in enumerate(p.patterns):
                if isinstance(x, ast.MatchStar):
                    if x.name:
                        tail = n - i - 1
                        binds[x.name] = self.mklist(items[i : len(items) - tail]) if items is not None else Term("rest", freeze(v), i)
                    continue
                if items is not None:
                    val = items[i] if star is None or i < star else items[i - n]
                else:
                    val = self.getitem(v, i if star is None or i < star else i - n)
                if not self.pmatch(x, val, binds):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            raise AnalysisError(f"mapping pattern at {self.cur.loc(p)}")
        raise AnalysisError(f"pattern {type(p).__name__}")

    # ------------------------------------------------------------ iteration
    def segments(self, v):
        """Decompose an iterable into ('item', value) and ('rep', ctx, guards, values) segments."""
        v = self.rd(v)
        if isinstance(v, tuple):
            return [("item", x) for x in v]
        if isinstance(v, str):
            return [("item", x) for x in v]
        if isinstance(v, ListV):
            out = []
            for x in v.items:
                if isinstance(x, Splat):
                    out.extend(self.segments_term(x.term))
                else:
                    out.append(("item", x))
            return out
        if isinstance(v, SetV):
            return self.segments_term(v.term)
        if isinstance(v, DictV):
            out = [("item", k) for k, _ in v.items.values()]
            for r in v.rest:
                out.extend(self.segments_term(r.term))
            return out
        if isinstance(v, Class) and v.is_enum:
            return [("item", EnumVal(v, n)) for n in v.enum_members()]
        if isinstance(v, Inst):
            if v.cls.is_namedtuple:
                return [("item", x) for x in v.fields.values()]
            m = v.cls.find_method("__iter__")
            if m:
                return self.segments(self.call_func(m, [v], {}))
        if isinstance(v, Term):
            return self.segments_term(v)
        if isinstance(v, Partial) or isinstance(v, (FuncVal, BoundBuiltin)):
            return self.segments_term(freeze(v))
        raise AnalysisError(f"iteration over {v!r}")

    def rds(self, v):
        """Apply the substitutions only (the initial content of a container, not its current one)."""
        while isinstance(v, Term) and v in self.st.subst:
            v = self.st.subst[v]
        return v

    def segments_term(self, t):
        t2 = self.rds(t)
        if not isinstance(t2, Term):
            return self.segments(t2)
        t = t2
        if t.op == "range" and all(is_num(a) for a in t.args):
            r = range(*[int(a) for a in t.args])
            if len(r) <= 64:
                return [("item", i) for i in r]
        if t.op == "list":
            out = []
            for x in t.args:
                if isinstance(x, Term) and x.op == "splat":
                    out.extend(self.segments_term(x.args[0]))
                else:
                    out.append(("item", x))
            return out
        if t.op == "comp":
            return [("alts", sorted(t.args[0], key=show))]
        if t.op == "setlit":
            return [("item", x) for x in sorted(t.args[0], key=order, reverse=self.reverse_sets)]
        if t.op == "zip":
            return [("rep", t, tuple(self.elem_of(a, zipped=t) for a in t.args))]
        if t.op == "enumerate":
            el = self.elem_of(t.args[0])
            return [("rep", t, (Term("index", t.args[0], typ=INTT) if len(t.args) == 1 or t.args[1] == 0 else padd(Term("index", t.args[0], typ=INTT), t.args[1]), el))]
        if t.op == "items":
            k = self.elem_of(t.args[0])
            return [("rep", t.args[0], (k, self.getitem(t.args[0], k)))]
        if t.op == "values":
            k = self.elem_of(t.args[0])
            return [("rep", t.args[0], self.getitem(t.args[0], k))]
        if t.op in ("lst",):
            return self.segments_term(t.args[0])
        if t.op == "or" and t.args:
            return [("rep", t, self.elem_of(t))]
        alts = self.alts(t)
        if alts and len(alts) == 1 and alts[0][0] == "exact":
            c = alts[0][1]
            m = c.find_method("__iter__")
            if m and not self.is_opaque(m):
                return self.segments(self.call_func(m, [t], {}))
        return [("rep", t, self.elem_of(t))]

    def elem_of(self, t, zipped=None):
        d = self.st.loopdepth.get(t, 0)
        typ = elem_type(t.typ) if isinstance(t, Term) else None
        if isinstance(t, Term) and typ is None:
            typ = self.guess_elem(t)
        if isinstance(t, Term) and t.op in ("set", "sorted", "reversed", "lst"):
            return self.elem_of(t.args[0])
        if isinstance(t, Term) and t.op == "zip":
            return tuple(self.elem_of(a, t) for a in t.args)
        if isinstance(t, Term) and t.op == "items":
            k = self.elem_of(t.args[0])
            return (k, self.getitem(t.args[0], k))
        if isinstance(t, Term) and t.op == "values":
            k = self.elem_of(t.args[0])
            return self.getitem(t.args[0], k)
        if isinstance(t, Term) and t.op == "range":
            typ = INTT
        if isinstance(t, Term) and t.op == "enumerate":
            return (Term("index", t.args[0], typ=INTT), self.elem_of(t.args[0]))
        return Term("elem", t, *((d,) if d else ()), typ=typ)

    def guess_elem(self, t):
        if t.op in ("or", "xor"):
            for x in t.args[0]:
                e = elem_type(x.typ) if isinstance(x, Term) else None
                if e:
                    return e
        if t.op in ("and",):
            for x in t.args[0]:
                e = elem_type(x.typ) if isinstance(x, Term) else None
                if e:
                    return e
        if t.op in ("setminus", "slice", "tail", "getitem", "phi", "acc"):
            if isinstance(t.args[0], Term):
                return elem_type(t.args[0].typ)
        alts = self.alts(t)
        if alts and all(a[0] == "exact" for a in alts):
            m = alts[0][1].find_method("__iter__")
            if m and not isinstance(m.node, ast.Lambda):
                r = self.prog.parse_ann(m.module, m.node.returns, m.cls)
                return elem_type(r)
        return None

    def s_For(self, s):
        it = self.eval(s.iter)
        segs = self.segments(it)
        if self.parallel is not None and self.footprint is None and self.is_parallel(s):
            return self.parallel_for(s, segs)
        if all(g[0] == "item" for g in segs) and len(segs) <= (400 if self.models else 80):
            for _, x in segs:
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except Continue_:
                    continue
                except Break_:
                    return
            self.block(s.orelse)
            return
        for g in segs:
            if g[0] == "item":
                self.assign(s.target, g[1])
                try:
                    self.block(s.body)
                except Continue_:
                    continue
                except Break_:
                    return
                continue
            if g[0] == "alts":
                def thunk(alts=g[1]):
                    i = self.choose(len(alts))
                    ctx, gs, vals = alts[i]
                    for a, v in sorted(gs, key=show):
                        self.reassume(a, v)
                    for v in vals:
                        self.assign(s.target, v)
                        try:
                            self.block(s.body)
                        except Continue_:
                            pass
                ctxs = {a[0] for a in g[1]}
                ctx = next(iter(ctxs)) if len(ctxs) == 1 else ((Term("comp", frozenset(g[1])), Term("elem", Term("comp", frozenset(g[1])))),)
            else:
                _, t, elem = g
                ctx = ((t, freeze(elem)),)

                def thunk(elem=elem):
                    self.assign(s.target, elem)
                    self.block(s.body)
            if self.generic_loop(ctx, thunk, s):
                return
        self.block(s.orelse)

    def is_parallel(self, s):
        from . import arrays

        fr = self.stack[-1]
        if not isinstance(s.iter, ast.Call) or self.prog.resolve_expr(fr.module, s.iter.func) != ("ext", "numba.prange"):
            return False
        return bool((arrays.compiled(fr.func) or {}).get("parallel"))

    def parallel_for(self, s, segs):
        """Iterations as independent tasks: variables start from what they were before the loop, sums from zero; what each reads and writes is kept."""
        if any(g[0] != "item" for g in segs):
            raise AnalysisError("parallel loop over an unknown range")
        env = self.stack[-1].env
        base = dict(env)
        ops, first = {}, {}
        for n in sorted((n for b in s.body for n in ast.walk(b)), key=lambda n: (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                first.setdefault(n.target.id, type(n.op))
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = n.value
                        same = isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == t.id
                        first.setdefault(t.id, type(v.op) if same else None)
        for name, op in first.items():
            if op is not None and name in base:
                ops[name] = op
                if op not in (ast.Add, ast.Sub, ast.Mult):
                    raise AnalysisError(f"reduction by {op.__name__}")
        acc = {name: [] for name in ops}
        marks = []
        try:
            for _, x in segs:
                env.clear()
                env.update(base)
                for name, op in ops.items():
                    env[name] = 1 if op is ast.Mult else 0
                self.footprint = {"read": set(), "write": set(), "own": {}}
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except Continue_:
                    pass
                except Break_:
                    raise AnalysisError("break in a parallel loop") from None
                marks.append(self.footprint)
                for name in ops:
                    acc[name].append(self.rd(env[name]))
        finally:
            self.footprint = None
        for name, op in ops.items():
            v = self.rd(base[name])
            for y in acc[name]:
                v = pmul(v, y) if op is ast.Mult else padd(v, y)
            env[name] = v
        writers, clash = {}, set()
        for i, f in enumerate(marks):
            for e in f["write"]:
                if writers.setdefault(e, i) != i:
                    clash.add((e[1], writers[e], i, "written"))
        for i, f in enumerate(marks):
            for e in f["read"]:
                if writers.get(e, i) != i:
                    clash.add((e[1], writers[e], i, "read"))
        self.parallel.append((self.stack[-1].func.qual, s.lineno, len(marks), sorted(clash)))

    def reassume(self, a, v):
        """Impose a guard recorded in a comprehension."""
        if a.op == "class":
            t = a.args[0]
            alts = self.alts(t)
            if alts is not None:
                keep = [x for x in alts if type_label(x) == v]
                if not keep:
                    raise Infeasible
                if len(keep) != len(alts):
                    self.set_narrow(t, keep)
                    self.add_guard(a, v)
            else:
                self.add_guard(a, v)
            return
        if v is True or v is False:
            k = self.st.known.get(a)
            if k is None:
                k = self.implied(a)
            if k is not None:
                if k != v:
                    raise Infeasible
                return
            self.assume(a, v)
            if a.op == "isnone":
                t = a.args[0]
                alts = self.alts(t)
                if alts is not None:
                    self.set_narrow(t, [x for x in alts if (x == ("none",)) == v])
                if v:
                    self.st.subst[t] = None
            if a.op == "isinst":
                alts = self.alts(a.args[0])
                if alts is not None:
                    keep = [x for x in alts if (type_label(x) in a.args[1]) == v]
                    self.set_narrow(a.args[0], keep)
        else:
            self.add_guard(a, v)

    def s_While(self, s):
        c = self.peek_cond(s.test)
        if c is False:
            self.block(s.orelse)
            return
        for _ in range(500 if self.models else 0):
            snap = self.snapshot()
            self.probing += 1
            try:
                c = self.truth(self.eval(s.test))
            except NotKnown:
                self.restore(snap)
                break
            finally:
                self.probing -= 1
            if not c:
                self.block(s.orelse)
                return
            try:
                self.block(s.body)
            except Continue_:
                continue
            except Break_:
                return
        key = Term("while", ast.unparse(s.test))
        ctx = ((key, Term("elem", key)),)

        def thunk():
            if not self.truth(self.eval(s.test)):
                raise Break_
            self.block(s.body)

        if self.generic_loop(ctx, thunk, s, is_while=True):
            return

    def peek_cond(self, e):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        return None

    def generic_loop(self, ctx, thunk, s, is_while=False):
        """Returns True when the loop is left by break."""
        it0 = ctx[-1][0]
        key = ctx
        base = self.snapshot()
        mods = {}
        results = []
        pre = base
        for rnd in range(6):
            self.restore(base)
            self.havoc(mods, base, key)
            pre = self.snapshot()

            def run():
                for t, _ in ctx:
                    self.st.loopdepth[t] = self.st.loopdepth.get(t, 0) + 1
                try:
                    thunk()
                finally:
                    for t, _ in ctx:
                        self.st.loopdepth[t] -= 1

            results = self.sub_explore(run)
            new = {}
            for r in results:
                if r.kind == "next":
                    self.diff(pre, r.snap, new)
            grown = False
            for k, sub in new.items():
                old = mods.setdefault(k, set())
                if not sub <= old:
                    old |= sub
                    grown = True
            if not grown:
                break
        nexts = [r for r in results if r.kind == "next"]
        exits = [r for r in results if r.kind != "next"]
        # ---- choose how the loop ends
        if is_while and not any(r.kind == "break" for r in exits) and not any(r.kind in ("return", "raise") for r in exits):
            self.notes.add(f"loop without exit at {self.cur.loc(s)}")
        opts = [] if is_while else [None]
        groups = {}
        for r in exits:
            vk = r.kind
            if r.kind == "return":
                vk = ("return", freeze(r.value))
            elif r.kind == "raise":
                vk = ("raise", r.value.exc, tuple(freeze(a) for a in r.value.args_))
            groups.setdefault(vk, []).append(r)
        opts += exits
        if not opts:
            raise Infeasible
        i = self.choose(len(opts))
        r = opts[i]
        loopev = lambda: self.event("loop", show(it0), {}, s, subs=[x for x in results if x.kind == "next"], ctx=ctx)
        if r is None:
            # normal exhaustion
            self.restore(base)
            for grp in groups.values():
                ex = mk_exists(ctx, [x.guards for x in grp])
                self.assume_bool(ex, False)
            if any(x.events for x in nexts):
                loopev()
            self.summarise(mods, base, pre, nexts, ctx)
            return False
        # exit through r: state of the iteration that leaves
        guards0 = list(base["guards"])
        self.restore(r.snap)
        evs = list(base["events"])
        self.st.guards = guards0
        self.st.events = evs
        if not is_while:
            ex = mk_exists(ctx, [x.guards for x in groups[next(k for k, g in groups.items() if r in g)]])
            self.assume_bool(ex, True)
        if any(x.events for x in nexts):
            loopev()
        n0 = len(self.st.guards)
        self.st.guards.extend(r.guards)
        for e in r.events:
            self.st.events.append(Event(e.kind, e.name, e.args, e.nguards + n0, e.loc, e.value, e.subs, e.ctx, (e.extra, "exit")))
        if r.kind == "break":
            return True
        if r.kind == "return":
            raise Return_(r.value)
        raise r.value

    def assume_bool(self, ex, val):
        if isinstance(ex, bool):
            if ex != val:
                raise Infeasible
            return
        while isinstance(ex, Term) and ex.op == "not":
            ex, val = ex.args[0], not val
        k = self.st.known.get(ex)
        if k is None:
            k = self.implied(ex)
        if k is not None:
            if k != val:
                raise Infeasible
            return
        self.assume(ex, val)

    def diff(self, a, b, out):
        for oid, c in a["content"].items():
            d = b["content"].get(oid)
            if d is None:
                continue
            o = a["objs"][oid]
            if isinstance(o, (Frame, Inst)):
                for k in set(c) | set(d):
                    if k in c and k in d:
                        if c[k] is d[k] or same(c[k], d[k]):
                            continue
                    out.setdefault(oid, set()).add(k)
            elif isinstance(o, ListV):
                if len(c) != len(d) or any(not (x is y or same(x, y)) for x, y in zip(c, d)):
                    out.setdefault(oid, set()).add("*")
            elif isinstance(o, SetV):
                if c != d:
                    out.setdefault(oid, set()).add("*")
            elif isinstance(o, DictV):
                if set(c[0]) != set(d[0]) or any(not same(c[0][k][1], d[0][k][1]) for k in c[0]) or len(c[1]) != len(d[1]):
                    out.setdefault(oid, set()).add("*")
        for f in ("overlay", "attrs"):
            for k in set(a[f]) | set(b[f]):
                if k not in a[f] or k not in b[f] or not (a[f][k] is b[f][k] or same(a[f][k], b[f][k])):
                    out.setdefault(f, set()).add(k)

    def havoc(self, mods, base, key):
        for oid, names in list(mods.items()):
            if oid == "overlay":
                for k in names:
                    if k not in self.st.overlay:
                        o = self.materialise(k)
                    o = self.st.overlay[k]
                    self.havoc_obj(o, key, ("ov", k))
                continue
            if oid == "attrs":
                for k in names:
                    self.st.attrs[k] = Term("phi", key, Term("attrslot", *k), typ=typ_of(base["attrs"].get(k)))
                continue
            o = base["objs"].get(oid)
            if o is None:
                continue
            if isinstance(o, Frame):
                for n in names:
                    if n in o.env:
                        o.env[n] = Term("phi", key, n, typ=typ_of(o.env[n]))
                    else:
                        pass
            else:
                self.havoc_obj(o, key, names)

    def havoc_obj(self, o, key, names):
        if isinstance(o, ListV):
            o.items = [*o.items, Splat(Term("acc", key, freeze(o), typ=("seq", ANY_T, "list")))]
        elif isinstance(o, SetV):
            o.term = Term("acc", key, o.term, typ=getattr(o.term, "typ", None) or ("set", ANY_T, "set"))
        elif isinstance(o, DictV):
            o.rest = [*o.rest, Splat(Term("acc", key, freeze(o), typ=o.typ))]
        elif isinstance(o, Inst):
            for n in names:
                if n in o.fields:
                    o.fields[n] = Term("phi", key, Term("fieldslot", n), typ=typ_of(o.fields[n]))

    def summarise(self, mods, base, pre, nexts, ctx):
        """Effect of any number of iterations."""
        for oid, names in mods.items():
            if oid == "attrs":
                for k in names:
                    b = base["attrs"].get(k)
                    self.st.attrs[k] = self.accumulate(b, pre["attrs"].get(k), [(r.guards, r.snap["attrs"].get(k)) for r in nexts], ctx)
                continue
            if oid == "overlay":
                for k in names:
                    if k not in self.st.overlay:
                        self.materialise(k)
                    o = self.st.overlay[k]
                    po = pre["overlay"][k]
                    self.sum_obj(o, pre["content"][po.oid], [(r.guards, r.snap["content"].get(r.snap["overlay"][k].oid)) for r in nexts], ctx)
                continue
            o = base["objs"].get(oid)
            if o is None:
                continue
            if isinstance(o, (Frame, Inst)):
                tgt = o.env if isinstance(o, Frame) else o.fields
                for n in names:
                    posts = [(r.guards, r.snap["content"][oid].get(n, Term("unbound", n))) for r in nexts]
                    prev = pre["content"][oid].get(n)
                    tgt[n] = self.accumulate(tgt.get(n, Term("unbound", n)), prev, posts, ctx)
            else:
                self.sum_obj(o, pre["content"][oid], [(r.guards, r.snap["content"][oid]) for r in nexts], ctx)

    def accumulate(self, basev, phi, posts, ctx):
        """Value after the loop of a variable whose value at the start of an iteration is phi."""
        fz = [(g, freeze(p)) for g, p in posts]
        if phi is not None and isinstance(phi, Term):
            if all(p == phi for _, p in fz):
                return basev
            # constant flags
            changed = [(g, p) for g, p in fz if p != phi]
            consts = {p for _, p in changed if not isinstance(p, Term)}
            if len(consts) == 1 and all(not isinstance(p, Term) for _, p in changed) and phi not in set().union(*[subterms(tuple(a for a, _ in g)) for g, _ in changed]):
                ex = mk_exists(ctx, [g for g, _ in changed])
                if not isinstance(ex, Term) or self.decide(ex):
                    return next(iter(consts)) if ex is not False else basev
                return basev
            # sums
            alts = []
            ok = True
            for g, p in fz:
                if p == phi:
                    continue
                d = padd(p, phi, -1) if not isinstance(p, (tuple, str)) and p is not None else None
                if d is None or phi in subterms(d):
                    ok = False
                    break
                alts.append((tuple(ctx), frozenset(g), (d,)))
            if ok and not isinstance(basev, (ListV, SetV, DictV, str, tuple)) and (is_num(basev) or isinstance(basev, Term)) and not self.is_set(basev) and typ_of(basev) != BOOLT:
                return padd(basev, mk_sum(mk_comp(alts)))
            # xor / or
            for opn, norm, nm in (("xor", xor_norm, "xorsum"), ("or", or_norm, "bigor"), ("bxor", bxor_norm, "bxorsum")):
                alts, ok = [], True
                for g, p in fz:
                    if p == phi:
                        continue
                    if isinstance(p, Term) and p.op == opn and phi in p.args[0]:
                        rest = norm([x for x in p.args[0] if x != phi])
                        alts.append((tuple(ctx), frozenset(g), (rest,)))
                    else:
                        ok = False
                        break
                if ok and alts:
                    return self._wrap(basev, norm([freeze(basev) if not isinstance(basev, SetV) else basev.term, Term(nm, mk_comp(alts))]))
        if isinstance(basev, Obj) and all(p is basev for _, p in posts):
            return basev
        return Term("phi", tuple(ctx), "end", freeze(basev), frozenset((frozenset(g), p) for g, p in fz), typ=typ_of(basev))

    def _wrap(self, basev, t):
        return self.mkset(t) if isinstance(basev, SetV) else t

    def sum_obj(self, o, prec, posts, ctx):
        ctx = tuple(ctx)
        if isinstance(o, ListV):
            alts, ok = [], True
            for g, c in posts:
                if c[: len(prec)] != prec and not (len(c) >= len(prec) and all(x is y or same(x, y) for x, y in zip(c, prec))):
                    ok = False
                    break
                new = c[len(prec) :]
                if any(isinstance(x, Splat) for x in new):
                    for x in new:
                        if isinstance(x, Splat):
                            if isinstance(x.term, Term) and x.term.op == "comp":
                                for c2, g2, v2 in x.term.args[0]:
                                    alts.append((ctx + c2, frozenset(g) | g2, v2))
                            else:
                                alts.append((ctx, frozenset(g), (Term("splat", x.term),)))
                        else:
                            alts.append((ctx, frozenset(g), (freeze(x),)))
                else:
                    if new:
                        alts.append((ctx, frozenset(g), tuple(freeze(x) for x in new)))
            if ok:
                if alts:
                    o.items = [*o.items, Splat(mk_comp(alts))]
                return
            o.items = [Splat(Term("phi", ctx, freeze(o), frozenset((frozenset(g), freeze(ListV(c))) for g, c in posts)))]
            return
        if isinstance(o, SetV):
            prev = prec
            base = o.term
            for opn, norm, nm in (("or", or_norm, "bigor"), ("xor", xor_norm, "xorsum")):
                alts, ok = [], True
                for g, p in posts:
                    if p == prev:
                        continue
                    if isinstance(p, Term) and p.op == opn and prev in p.args[0]:
                        rest = norm([x for x in p.args[0] if x != prev])
                        alts.append((ctx, frozenset(g), rest))
                    else:
                        ok = False
                        break
                if ok:
                    if not alts:
                        return
                    parts = []
                    if nm == "bigor":
                        lit = []
                        for c, g, rest in alts:
                            rs = rest.args[0] if isinstance(rest, Term) and rest.op == "or" else [rest]
                            for x in rs:
                                if isinstance(x, Term) and x.op == "setlit":
                                    lit.append((c, g, tuple(sorted(x.args[0], key=show))))
                                elif isinstance(x, Term) and x.op == "comp":
                                    lit.extend((c + c2, g | g2, v2) for c2, g2, v2 in x.args[0])
                                else:
                                    lit.append((c, g, (Term("splat", x),)))
                        parts.append(norm_comp_set(mk_comp(lit)))
                    else:
                        parts.append(Term("xorsum", mk_comp([(c, g, (r,)) for c, g, r in alts])))
                    o.term = norm([base, *parts])
                    return
            alts, ok = [], True
            for g, p in posts:
                if p == prev:
                    continue
                if isinstance(p, Term) and p.op == "setminus" and p.args[0] == prev:
                    rest = p.args[1]
                    vals = tuple(sorted(rest.args[0], key=show)) if rest.op == "setlit" else (Term("splat", rest),)
                    alts.append((ctx, frozenset(g), vals))
                else:
                    ok = False
            if ok and alts:
                o.term = minus_norm(base, norm_comp_set(mk_comp(alts)))
                return
            o.term = Term("phi", ctx, base, frozenset((frozenset(g), p) for g, p in posts), typ=("set", ANY_T, "set"))
            return
        if isinstance(o, DictV):
            alts, ok = [], True
            pi, pr = prec
            for g, (ci, cr) in posts:
                if any(k not in ci or not same(ci[k][1], pi[k][1]) for k in pi) or cr[: len(pr)] != pr:
                    ok = False
                    break
                new = [(freeze(k), freeze(v)) for kk, (k, v) in ci.items() if kk not in pi]
                if new:
                    alts.append((ctx, frozenset(g), tuple(new)))
                for x in cr[len(pr) :]:
                    if isinstance(x.term, Term) and x.term.op == "dcomp":
                        alts.extend((ctx + c2, frozenset(g) | g2, v2) for c2, g2, v2 in x.term.args[0])
                    else:
                        alts.append((ctx, frozenset(g), (Term("splat", x.term),)))
            if ok:
                if alts:
                    o.rest = [*o.rest, Splat(Term("dcomp", mk_comp(alts).args[0], typ=o.typ))]
                return
            o.items, o.rest = {}, [Splat(Term("phi", ctx, freeze(o), frozenset((frozenset(g), freeze(DictV(c[0], c[1]))) for g, c in posts), typ=o.typ))]
            return
        if isinstance(o, Inst):
            for n in set().union(*[set(c) for _, c in posts]) if posts else ():
                o.fields[n] = self.accumulate(o.fields.get(n), prec.get(n), [(g, c.get(n)) for g, c in posts], ctx)

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"expression {type(e).__name__} not handled at {self.cur.loc(e)}")
        return self.rd(m(e))

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return _frac(v)
        if isinstance(v, complex):
            return padd(_frac(v.real), pmul(_frac(v.imag), IMAG))
        if v is Ellipsis:
            return Ext("Ellipsis")
        return v

    def lookup(self, name, node=None):
        fr = self.fr
        while fr is not None:
            if name in fr.env:
                return self.rd(fr.env[name])
            fr = fr.parent
        m = self.fr.module
        if name in m.names or f"{m.name}.{name}" in self.prog.modules:
            r = self.prog.resolve_name(m, name)
            if r is not None:
                return self.ent(r)
        if name in BUILTINS:
            return Ext("builtins." + name)
        return Ext("builtins." + name)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def ent(self, r):
        if r[0] == "module":
            return r[1]
        if r[0] == "class":
            return r[1]
        if r[0] == "func":
            return FuncVal(r[1])
        if r[0] == "const":
            return self.module_const(r[1], r[2], r[3])
        if r[0] == "classattr":
            return self.class_attr(r[1], r[2])
        if r[0] == "declared":
            return Term("global", f"{r[1].name}.{r[2]}")
        return self.ext(r[1])

    def ext(self, name):
        """External entity, or what models it."""
        if self.models and name.startswith("networkx."):
            m = self.prog.models()
            x = name.rsplit(".", 1)[-1]
            if x in m.names and m.names[x][0] in ("class", "func", "def"):
                d = m.names[x][1]
                return FuncVal(d) if isinstance(d, Func) else d
        if self.arrays and name.startswith("numpy.") and name.count(".") == 1:
            m = self.prog.np_models()
            x = name[6:]
            if x in m.names and m.names[x][0] in ("class", "func", "def"):
                d = m.names[x][1]
                return FuncVal(d) if isinstance(d, Func) else d
        if self.arrays and name == "numba.prange":
            return Ext("builtins.range")
        return Ext(name)

    def module_const(self, m, name, node):
        key = (m.name, name)
        if key in self._const_cache:
            v = self._const_cache[key]
            return v
        ann = None
        for n in m.tree.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                ann = n.annotation
        typ = self.prog.parse_ann(m, ann) if ann is not None else None
        self._const_cache[key] = Term("global", f"{m.name}.{name}", typ=typ)
        v = self.eval_static(m, node, None)
        if v is None and not (isinstance(node, ast.Constant) and node.value is None):
            v = Term("global", f"{m.name}.{name}", typ=typ)
        self._const_cache[key] = v
        return v

    def eval_static(self, m, node, cls):
        """Evaluate a module or class level expression; None when out of reach."""
        st, stack, cur = self.st, self.stack, self.cur
        saved = (self.script, self.pos, self.taken, self.pending)
        f = Func("<module>", m.name, ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=node), m, None)
        self.st = State()
        self.stack = []
        self.script, self.pos, self.taken, self.pending = [], 0, [], []
        try:
            fr = Frame(f, m, cls)
            if cls is not None:
                for n in cls.assigns:
                    pass
            self.st.heap.append(fr)
            v = self.run_func(f, fr)
            if self.pending:
                return None
            return v
        except (AnalysisError, Signal):
            return None
        finally:
            self.st, self.stack, self.cur = st, stack, cur
            self.script, self.pos, self.taken, self.pending = saved

    def class_attr(self, c: Class, name):
        if c.is_enum and name in c.enum_members():
            return EnumVal(c, name)
        key = (c.qual, name)
        if key in self._const_cache:
            return self._const_cache[key]
        a = c.find_assign(name)
        if a is None:
            return None
        owner, node = a
        if owner.is_enum and name in owner.enum_members():
            return EnumVal(owner, name)
        if isinstance(node, ast.Call):
            fn = ast.unparse(node.func).split(".")[-1]
            if fn == "field":
                kw = {k.arg: k.value for k in node.keywords}
                if "default" in kw:
                    node = kw["default"]
                elif "default_factory" in kw:
                    node = ast.Call(func=kw["default_factory"], args=[], keywords=[])
        ann = owner.ann.get(name)
        typ = self.prog.parse_ann(owner.module, ann.annotation, owner) if ann is not None else None
        self._const_cache[key] = Term("classconst", owner.qual, name, typ=typ)
        v = self.eval_static(owner.module, self.localise(owner, node), owner)
        if v is None and not (isinstance(node, ast.Constant) and node.value is None):
            v = Term("classconst", owner.qual, name, typ=typ)
        self._const_cache[key] = v
        return v

    def localise(self, c, node):
        """Names of the class body used in a class level expression."""
        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                if n.id in c.assigns and n.id not in c.module.names:
                    return ast.copy_location(ast.Attribute(value=ast.Name(id=c.name, ctx=ast.Load()), attr=n.id, ctx=ast.Load()), n)
                return n
        import copy
        return R().visit(copy.deepcopy(node)) if any(isinstance(n, ast.Name) and n.id in c.assigns for n in ast.walk(node)) else node

    def e_Attribute(self, e):
        b = self.eval(e.value)
        return self.getattr(b, e.attr, e)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                for s in self.as_items(v):
                    out.append(s)
            else:
                out.append(self.eval(x))
        if any(isinstance(x, Splat) for x in out):
            return self.mklist(out, "tuple")
        return tuple(out)

    def as_items(self, v):
        """Items of a collection (with splats)."""
        v = self.rd(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            return list(v.items)
        if isinstance(v, DictV):
            return [k for k, _ in v.items.values()] + list(v.rest)
        if isinstance(v, SetV):
            if v.term.op == "setlit":
                return sorted(v.term.args[0], key=order, reverse=self.reverse_sets)
            return [Splat(v.term)]
        if isinstance(v, Term):
            if v.op == "list":
                return [Splat(x.args[0]) if isinstance(x, Term) and x.op == "splat" else x for x in v.args]
            if v.op == "setlit":
                return sorted(v.args[0], key=order, reverse=self.reverse_sets)
            if v.op == "range" and all(is_num(a) for a in v.args) and len(range(*v.args)) <= 64:
                return list(range(*v.args))
            if v.op in ("items", "values", "zip", "enumerate"):
                segs = self.segments_term(v)
                (kind, t, el), = segs
                return [Splat(mk_comp([(((t, freeze(el) if not isinstance(el, tuple) else freeze(el)),), frozenset(), (freeze(el),))]))]
            return [Splat(v)]
        segs = self.segments(v)
        if all(s[0] == "item" for s in segs):
            return [s[1] for s in segs]
        return [Splat(freeze(v))]

    def e_List(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.as_items(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return self.mklist(out)

    def e_Set(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.as_items(self.eval(x.value)))
            else:
                out.append(self.eval(x))
        return self.mkset(self.set_term(ListV(out)))

    def e_Dict(self, e):
        d = self.mkdict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_method(d, "update", [self.eval(v)], {}, e)
            else:
                kk = self.eval(k)
                d.items[freeze(kk)] = (kk, self.eval(v))
        return d

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(x.value)
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    sp = self.eval(x.format_spec) if x.format_spec is not None else None
                    if isinstance(v, (int, str)) and isinstance(sp, str) and x.conversion == -1:
                        try:
                            parts.append(format(v, sp))
                        except ValueError:
                            raise Raise_("ValueError", ("Invalid format specifier",), e, True) from None
                        continue
                    parts.append(Term("fmt", freeze(v), x.conversion, freeze(sp)))
                else:
                    parts.append(self.to_str(v))
        return mk_str(parts)

    def to_str(self, v):
        v = self.rd(v)
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if is_num(v) and not isinstance(v, Fraction):
            return str(v)
        if isinstance(v, EnumVal):
            m = v.cls.find_method("__str__")
            if m and not self.is_opaque(m):
                return self.call_func(m, [v], {})
        if isinstance(v, Inst):
            m = v.cls.find_method("__str__")
            if m and not self.is_opaque(m):
                return self.call_func(m, [v], {})
        if isinstance(v, Term) and v.op == "str":
            return v
        if isinstance(v, Term) and v.typ == STRT:
            return v
        return Term("tostr", freeze(v), typ=STRT)

    def e_FormattedValue(self, e):
        return self.to_str(self.eval(e.value))

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            v = self.rd(v)
            if isinstance(v, Term):
                a = self.truthy_atom(v)
                return self.negv(a)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            m = self.dunder(v, "__neg__")
            if m:
                return self.call_func(m, [v], {})
            if isinstance(v, float):
                return -v
            if isinstance(v, ListV):
                return self.arr_map(v, lambda x: pmul(-1, x))
            if isinstance(v, Term):
                r = self.class_op(v, "__neg__", [])
                if r is not None:
                    return r
            return pmul(-1, freeze(v))
        if isinstance(e.op, ast.UAdd):
            m = self.dunder(v, "__pos__")
            if m:
                return self.call_func(m, [v], {})
            return v
        if isinstance(e.op, ast.Invert):
            m = self.dunder(v, "__invert__")
            if m:
                return self.call_func(m, [v], {})
            if is_num(v):
                return ~v
            return Term("invert", freeze(v), typ=typ_of(v))
        raise AnalysisError("unary op")

    def e_BoolOp(self, e):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return self.rd(v) if not is_atom(v) else False
            if isinstance(e.op, ast.Or) and t:
                return self.rd(v) if not is_atom(v) else True
        return v

    def e_IfExp(self, e):
        return self.eval(e.body) if self.truth(self.eval(e.test)) else self.eval(e.orelse)

    def e_Compare(self, e):
        left = self.eval(e.left)
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c)
            r = self.compare(op, left, right, e)
            if i == n - 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return True

    def e_Lambda(self, e):
        f = Func("<lambda>", f"{self.cur.qual}.<lambda>{e.lineno}_{e.col_offset}", e, self.cur.module, None, self.cur)
        return FuncVal(f, closure=self.fr, cls_ctx=self.fr.cls)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value else None
        self.event("yield", "yield", {"value": freeze(v)}, e, value=v)
        fr = self.fr
        if fr.yields is not None:
            fr.yields.items.append(v)
        return Term("sent")

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        its = self.as_items(v)
        self.event("yieldfrom", "yieldfrom", {"value": freeze(v)}, e, value=v)
        if self.fr.yields is not None:
            self.fr.yields.items.extend(its)
        return Term("sent")

    def e_Slice(self, e):
        f = lambda x: self.eval(x) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def eval_index(self, s):
        return self.eval(s) if not isinstance(s, ast.Slice) else self.e_Slice(s)

    def own_dict(self, t):
        """(instance, name) of ``instance.__dict__[name]``."""
        if isinstance(t.value, ast.Attribute) and t.value.attr == "__dict__" and self.arrays:
            b, k = self.rd(self.eval(t.value.value)), self.rd(self.eval_index(t.slice))
            if isinstance(b, Inst) and isinstance(k, str):
                return b, k
        return None

    def e_Subscript(self, e):
        if (r := self.own_dict(e)) and r[1] in r[0].fields:
            return self.rd(r[0].fields[r[1]])
        b = self.eval(e.value)
        if isinstance(b, Class) and not b.is_enum:
            return b
        k = self.eval_index(e.slice)
        return self.getitem(b, k, e)

    # ---- comprehensions
    def comp_eval(self, e, elt):
        """Evaluate generators; returns list of items (with Splat comps). elt: callable giving the value."""
        fr0 = self.fr
        fr = Frame(fr0.func, fr0.module, fr0.cls, fr0)
        fr.yields = None
        self.st.heap.append(fr)
        out = []

        def gen(i, ctx):
            if i == len(e.generators):
                out_items.append((tuple(ctx), elt()))
                return
            g = e.generators[i]
            itv = self.eval(g.iter) if i or first is None else first
            segs = self.segments(itv)
            for sg in segs:
                if sg[0] == "item":
                    self.assign(g.target, sg[1])
                    if self._filters(g.ifs):
                        gen(i + 1, ctx)
                elif sg[0] == "rep":
                    _, t, el = sg
                    self.st.loopdepth[t] = self.st.loopdepth.get(t, 0) + 1
                    self.assign(g.target, el)
                    if self._filters(g.ifs):
                        gen(i + 1, [*ctx, (t, freeze(el))])
                    self.st.loopdepth[t] -= 1
                else:
                    n = self.choose(len(sg[1]))
                    c2, gs, vals = sg[1][n]
                    try:
                        for a, v in sorted(gs, key=show):
                            self.reassume(a, v)
                        for v in vals:
                            self.assign(g.target, v)
                            if self._filters(g.ifs):
                                gen(i + 1, [*ctx, *c2])
                    except Infeasible:
                        raise

        # fully concrete fast path
        self.stack.append(fr)
        try:
            out_items = []
            results = []

            def thunk():
                out_items.clear()
                gen(0, [])
                return list(out_items)

            # exact iteration when every generator is concrete and no fork happens
            first = None
            if self._concrete(e):
                thunk()
                return [v for _, v in out_items]
            if self.models and len(e.generators) == 1:
                # over known items, whatever gives them
                first = self.eval(e.generators[0].iter)
                if all(s[0] == "item" for s in self.segments(first)):
                    thunk()
                    return [v for _, v in out_items]
            results = self.sub_explore(thunk)
        finally:
            self.stack.pop()
        alts = []
        evs = []
        exits = [r for r in results if r.kind == "raise"]
        ctx0 = None
        for r in results:
            if r.kind != "next":
                continue
            if r.events:
                evs.append(r)
            for ctx, v in r.value:
                ctx0 = ctx0 or ctx
                alts.append((ctx, frozenset(r.guards), (freeze(v),)))
        if evs:
            self.event("loop", "comp", {}, e, subs=evs, ctx=ctx0 or ((Term("comploop"), Term("elem", Term("comploop"))),))
        if exits:
            i = self.choose(1 + len(exits))
            if i:
                r = exits[i - 1]
                for a, v in r.guards:
                    self.add_guard(a, v)
                raise r.value
        # items which do not depend on an iteration
        if any(not c for c, _, _ in alts) and all(not c for c, _, _ in alts) and len({g for _, g, _ in alts}) == 1:
            return [v[0] for _, _, v in alts]
        c = mk_comp(alts)
        # identity comprehension
        if isinstance(c, Term) and c.op == "comp" and len(c.args[0]) == 1:
            (ctx, gs, vals), = c.args[0]
            if len(ctx) == 1 and not gs and vals == (ctx[0][1],):
                return [Splat(ctx[0][0])]
        if isinstance(c, Term) and c.op == "comp" and not c.args[0]:
            return []
        return [Splat(c)]

    def _filters(self, ifs):
        return all(self.truth(self.eval(x)) for x in ifs)

    def _concrete(self, e):
        """Single generator over concrete items (evaluated in place, forks allowed)."""
        try:
            if len(e.generators) != 1:
                # nested generators: check the first and allow dependent evaluation
                g0 = e.generators[0]
                if not self._pure_iter(g0.iter):
                    return False
                v = self.eval(g0.iter)
                if any(s[0] != "item" for s in self.segments(v)):
                    return False
                for g in e.generators[1:]:
                    if not self._pure_iter(g.iter):
                        return False
                    names = {n.id for n in ast.walk(g.iter) if isinstance(n, ast.Name)}
                    bound = set().union(*[{n.id for n in ast.walk(h.target) if isinstance(n, ast.Name)} for h in e.generators])
                    if names & bound:
                        return self.models and all(self._pure_iter(h.iter) for h in e.generators) and self._dry(e, 0)
                    if any(s[0] != "item" for s in self.segments(self.eval(g.iter))):
                        return False
                return True
            if not self._pure_iter(e.generators[0].iter):
                return False
            v = self.eval(e.generators[0].iter)
            return all(s[0] == "item" for s in self.segments(v))
        except AnalysisError:
            return False

    def _dry(self, e, i):
        """Whether every generator runs over known items, whatever the filters say."""
        if i == len(e.generators):
            return True
        for sg in self.segments(self.eval(e.generators[i].iter)):
            if sg[0] != "item":
                return False
            self.assign(e.generators[i].target, sg[1])
            if not self._dry(e, i + 1):
                return False
        return True

    def _pure_iter(self, x):
        return all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Tuple, ast.List, ast.Load, ast.Subscript, ast.Starred)) or
                   (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("range", "enumerate", "zip", "list", "sorted", "reversed", "tuple", "set")) or
                   (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("items", "keys", "values", "product"))
                   or isinstance(n, (ast.BinOp, ast.operator, ast.keyword, ast.UnaryOp, ast.USub))
                   for n in ast.walk(x))

    def e_ListComp(self, e):
        return self.mklist(self.comp_eval(e, lambda: self.eval(e.elt)))

    def e_GeneratorExp(self, e):
        return self.mklist(self.comp_eval(e, lambda: self.eval(e.elt)), "gen")

    def e_SetComp(self, e):
        return self.mkset(self.set_term(ListV(self.comp_eval(e, lambda: self.eval(e.elt)))))

    def e_DictComp(self, e):
        its = self.comp_eval(e, lambda: (self.eval(e.key), self.eval(e.value)))
        d = self.mkdict()
        for x in its:
            if isinstance(x, Splat):
                t = x.term
                d.rest.append(Splat(Term("dcomp", t.args[0])) if isinstance(t, Term) and t.op == "comp" else x)
            else:
                d.items[freeze(x[0])] = x
        return d

    # ------------------------------------------------------------ binary operators
    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b, e)

    DUNDERS = {
        ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.MatMult: "matmul", ast.Mod: "mod",
        ast.FloorDiv: "floordiv", ast.Pow: "pow", ast.BitXor: "xor", ast.BitOr: "or", ast.BitAnd: "and", ast.LShift: "lshift", ast.RShift: "rshift",
    }

    def class_op(self, a, name, args):
        """Operator method of a term whose class is known."""
        if not isinstance(a, Term):
            return None
        alts = self.alts(a)
        if not alts or not all(x[0] in ("exact", "enum", "cls") for x in alts):
            return None
        ms = {x[1].find_method(name) for x in alts}
        if None in ms:
            return None
        if len(ms) > 1:
            x = self.pick_class(a, alts)
            m = x[1].find_method(name)
        else:
            m = next(iter(ms))
        return self.call_func(m, [a, *args], {})

    def binop(self, op, a, b, node=None):
        a, b = self.rd(a), self.rd(b)
        nm = self.DUNDERS[type(op)]
        refused = False
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, (Inst, EnumVal)):
                m = x.cls.find_method(f"{pre}{nm}__")
                if m:
                    r = self.call_func(m, [x, y], {})
                    if isinstance(r, Ext) and r.name.endswith("NotImplemented"):
                        refused = True
                        continue
                    return r
                refused = refused or isinstance(x, Inst)
            elif isinstance(x, Term) and x.typ and x.typ[0] in ("cls", "exact", "uni"):
                if not is_const(y) or True:
                    r = self.class_op(x, f"{pre}{nm}__", [y])
                    if r is not None and not (isinstance(r, Ext) and r.name.endswith("NotImplemented")):
                        return r
        if refused and all(isinstance(x, (Inst, int, str, Fraction, float)) or isinstance(x, Term) and (x.op == "imag" or x.typ and x.typ[0] == "prim") for x in (a, b)):
            raise Raise_("TypeError", ("unsupported operand types",), node, True)
        # strings
        if isinstance(op, ast.Add) and (isinstance(a, str) or isinstance(b, str) or (isinstance(a, Term) and a.op == "str") or (isinstance(b, Term) and b.op == "str")):
            return mk_str([a if isinstance(a, (str, Term)) else freeze(a), b if isinstance(b, (str, Term)) else freeze(b)])
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Term("fmt", a, freeze(b), typ=STRT)
        if isinstance(op, ast.Mult) and isinstance(a, str) and is_num(b):
            return a * b
        # sequences
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, ListV) and a.kind in ("list", "tuple", "gen") or isinstance(b, ListV) and b.kind in ("list", "tuple", "gen"):
            if isinstance(op, ast.Add):
                return self.mklist([*self.as_items(a), *self.as_items(b)], "list")
            if isinstance(op, ast.Mult):
                l, n = (a, b) if isinstance(a, ListV) else (b, a)
                if is_num(n):
                    return self.mklist(list(l.items) * int(n))
                return self.mklist([Splat(Term("repeat", freeze(l), freeze(n)))])
        if isinstance(op, ast.Add) and isinstance(a, Term) and a.typ and a.typ[0] == "seq" and isinstance(b, (Term, tuple)):
            return self.mklist([*self.as_items(a), *self.as_items(b)])
        if isinstance(op, ast.Mult) and isinstance(a, tuple) and is_num(b):
            return a * b
        # sets
        if isinstance(op, (ast.BitXor, ast.BitOr, ast.BitAnd, ast.Sub)) and (self.is_set(a) or self.is_set(b) or (isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)) and any(isinstance(v, Term) and v.op == "set" for v in (a, b)))):
            ta, tb = self.set_term(a), self.set_term(b)
            r = {ast.BitXor: lambda: xor_norm([ta, tb]), ast.BitOr: lambda: or_norm([ta, tb]), ast.BitAnd: lambda: and_norm([ta, tb]), ast.Sub: lambda: minus_norm(ta, tb)}[type(op)]()
            return self.mkset(r)
        if isinstance(op, ast.BitOr) and isinstance(a, DictV):
            d = self.mkdict(a.items, a.rest)
            self.dict_method(d, "update", [b], {}, node)
            return d
        # arrays
        if isinstance(a, ListV) and a.kind == "array" or isinstance(b, ListV) and b.kind == "array":
            r = self.arr_binop(op, a, b)
            if r is not None:
                return r
        # numbers
        if isinstance(a, bool) and not isinstance(op, (ast.BitXor, ast.BitOr, ast.BitAnd)):
            a = int(a)
        if isinstance(b, bool) and not isinstance(op, (ast.BitXor, ast.BitOr, ast.BitAnd)):
            b = int(b)
        fa, fb = freeze(a), freeze(b)
        if isinstance(fa, float) or isinstance(fb, float):
            return Term("binop", nm, fa, fb, typ=FLOATT)
        if isinstance(op, ast.Add):
            return self.num(padd(fa, fb), fa, fb)
        if isinstance(op, ast.Sub):
            return self.num(padd(fa, fb, -1), fa, fb)
        if isinstance(op, ast.Mult):
            return self.num(pmul(fa, fb), fa, fb)
        if isinstance(op, ast.Div):
            if is_num(fb) and fb == 0:
                raise Raise_("ZeroDivisionError", (), node, True)
            return pmul(fa, pinv(fb))
        if isinstance(op, ast.Pow):
            if is_num(fb) and not isinstance(fb, Fraction) and 0 <= fb <= 12:
                r = 1
                for _ in range(fb):
                    r = pmul(r, fa)
                return self.num(r, fa, fa)
            if is_num(fb) and not isinstance(fb, Fraction) and fb < 0 and fb > -6:
                r = 1
                for _ in range(-fb):
                    r = pmul(r, fa)
                return pinv(r)
            if fb == Fraction(1, 2):
                return psqrt(fa)
            return Term("pow", fa, fb, typ=typ_of(fa))
        if isinstance(op, ast.FloorDiv):
            if is_num(fa) and is_num(fb) and fb != 0:
                return int(fa // fb)
            return Term("floordiv", fa, fb, typ=INTT)
        if isinstance(op, ast.Mod):
            if is_num(fa) and is_num(fb) and fb != 0:
                r = fa % fb
                return int(r) if isinstance(r, Fraction) and r.denominator == 1 else r
            return mk_mod(fa, fb)
        if isinstance(op, (ast.BitXor, ast.BitAnd, ast.BitOr)):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return {ast.BitXor: lambda: a ^ b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b}[type(op)]()
            if isinstance(op, ast.BitXor):
                return bxor_norm([fa, fb])
            return Term("bit" + nm, *sorted((fa, fb), key=show), typ=typ_of(a))
        if isinstance(op, (ast.LShift, ast.RShift)) and is_num(fa) and is_num(fb):
            if fb < 0:
                from . import arrays

                f = self.stack[-1].func if self.stack else None
                raise Raise_("OutOfBounds" if f is not None and arrays.compiled(f) else "ValueError", ("negative shift count",), node, True)
            return fa << fb if isinstance(op, ast.LShift) else fa >> fb
        return Term("binop", nm, fa, fb, typ=typ_of(a))

    def num(self, r, a, b):
        if isinstance(r, Term) and r.op == "poly":
            ta, tb = typ_of(a), typ_of(b)
            if ta == INTT and tb == INTT:
                return Term("poly", *r.args, typ=INTT)
        return r

    # ---- arrays (exact nested lists)
    def arr_map(self, v, f):
        v = self.rd(v)
        if isinstance(v, (ListV, tuple)):
            its = v.items if isinstance(v, ListV) else v
            return self.mklist([self.arr_map(x, f) for x in its], "array")
        return f(freeze(v))

    def arr_shape(self, v):
        v = self.rd(v)
        if isinstance(v, (ListV, tuple)):
            its = v.items if isinstance(v, ListV) else v
            if any(isinstance(x, Splat) for x in its):
                return None
            if not its:
                return (0,)
            s = self.arr_shape(its[0])
            return None if s is None else (len(its), *s)
        return ()

    def arr_get(self, v, idx):
        for i in idx:
            v = self.rd(v)
            v = v.items[i] if isinstance(v, ListV) else v[i]
        return freeze(v)

    def arr_binop(self, op, a, b):
        sa, sb = self.arr_shape(a), self.arr_shape(b)
        if sa is None or sb is None:
            return None
        scal = {ast.Add: lambda x, y: padd(x, y), ast.Sub: lambda x, y: padd(x, y, -1), ast.Mult: lambda x, y: pmul(x, y), ast.Div: lambda x, y: pmul(x, pinv(y))}
        if isinstance(op, ast.MatMult):
            if len(sa) == 2 and len(sb) == 2 and sa[1] == sb[0]:
                rows = []
                for i in range(sa[0]):
                    row = []
                    for j in range(sb[1]):
                        acc = 0
                        for k in range(sa[1]):
                            acc = padd(acc, pmul(self.arr_get(a, (i, k)), self.arr_get(b, (k, j))))
                        row.append(acc)
                    rows.append(self.mklist(row, "array"))
                return self.mklist(rows, "array")
            return None
        f = scal.get(type(op))
        if f is None:
            return None
        if isinstance(a, ListV) and not isinstance(b, (ListV, tuple)):
            fb = freeze(b)
            if isinstance(fb, Term) and not (is_scalar(fb)):
                return None
            return self.arr_map(a, lambda x: f(x, fb))
        if isinstance(b, ListV) and not isinstance(a, (ListV, tuple)):
            fa = freeze(a)
            if isinstance(fa, Term) and not is_scalar(fa):
                return None
            return self.arr_map(b, lambda x: f(fa, x))
        if sa == sb:
            def go(x, y):
                x, y = self.rd(x), self.rd(y)
                if isinstance(x, (ListV, tuple)):
                    xi = x.items if isinstance(x, ListV) else x
                    yi = y.items if isinstance(y, ListV) else y
                    return self.mklist([go(p, q) for p, q in zip(xi, yi)], "array")
                return f(freeze(x), freeze(y))
            return go(a, b)
        return None

    # ------------------------------------------------------------ attributes
    def getattr(self, b, name, node=None):
        b = self.rd(b)
        if isinstance(b, Module):
            r = self.prog.resolve_name(b, name)
            return self.ent(r) if r else Ext(f"{b.name}.{name}")
        if isinstance(b, Ext):
            return self.ext(f"{b.name}.{name}")
        if isinstance(b, Class):
            return self.cls_getattr(b, name)
        if isinstance(b, EnumVal):
            return self.enum_getattr(b, name)
        if isinstance(b, Inst):
            if name in b.fields:
                return self.rd(b.fields[name])
            if name == "__class__":
                return b.cls
            return self.obj_getattr(b, b.cls, name, node)
        if isinstance(b, Term):
            return self.term_getattr(b, name, node)
        if isinstance(b, SuperV):
            for c in b.mro:
                if name in c.methods:
                    return FuncVal(c.methods[name], self_=None if name == "__new__" else b.self_)
                if name == "__init__" and c.is_dataclass and isinstance(self.rd(b.self_), Inst):
                    return Partial(BoundBuiltin(c, "__dcinit__"), [b.self_], {})
            return BoundBuiltin(b, name)
        if isinstance(b, FuncVal) and name == "__name__":
            return b.func.name
        if name in ("numerator", "denominator") and is_num(b) and not isinstance(b, (bool, complex)):
            return getattr(Fraction(b), name)
        if isinstance(b, ListV) and b.kind == "array" and name in ("T", "shape", "size", "ndim", "dtype", "real", "imag"):
            if name == "T":
                sh = self.arr_shape(b)
                if sh and len(sh) == 2:
                    return self.mklist([self.mklist([self.arr_get(b, (i, j)) for i in range(sh[0])], "array") for j in range(sh[1])], "array")
            if name in ("shape", "ndim", "size"):
                sh = self.arr_shape(b)
                if sh is not None:
                    return sh if name == "shape" else len(sh) if name == "ndim" else math.prod(sh)
            return Term("attr", freeze(b), name)
        return BoundBuiltin(b, name)

    def cls_getattr(self, c, name):
        if c.is_enum and name in c.enum_members():
            return EnumVal(c, name)
        if name == "__name__" or name == "__qualname__":
            return c.name
        if name in c.nested:
            return c.nested[name]
        m = c.find_method(name)
        if m:
            if m.is_classmethod:
                return FuncVal(m, self_=c)
            return FuncVal(m)
        a = c.find_assign(name)
        if a:
            r = self.prog.resolve_expr(a[0].module, a[1]) if isinstance(a[1], (ast.Name, ast.Attribute)) else None
            if r and r[0] in ("class", "func"):
                return self.ent(r)
            return self.class_attr(c, name)
        if c.is_enum and name in ("_member_map_", "__members__"):
            d = self.mkdict()
            for n in c.enum_members():
                d.items[n] = (n, EnumVal(c, n))
            return d
        return Ext(f"{c.qual}.{name}")

    def enum_getattr(self, b, name):
        c = b.cls
        if name == "name":
            return b.name
        if name == "value":
            node = c.enum_members()[b.name]
            if isinstance(node, ast.Call) and ast.unparse(node.func).split(".")[-1] == "auto":
                return list(c.enum_members()).index(b.name) + 1
            v = self.eval_static(c.module, node, c)
            return v
        if name in c.enum_members():
            return EnumVal(c, name)
        m = c.find_method(name)
        if m:
            if m.is_property:
                return self.call_func(m, [b], {})
            return FuncVal(m, self_=c if m.is_classmethod else (None if m.is_static else b))
        return self.cls_getattr(c, name)

    def obj_getattr(self, b, c, name, node):
        m = c.find_method(name)
        if m:
            if m.is_property:
                return self.call_func(m, [b], {}, node)
            return FuncVal(m, self_=c if m.is_classmethod else (None if m.is_static else b))
        if name == "__new__" and not any("ndarray" in x for x in c.external_bases()):
            return BoundBuiltin(c, name)
        a = c.find_assign(name)
        if a:
            if isinstance(a[1], ast.Call) and isinstance(b, Inst):
                dm = self.descriptor(a[0], a[1])
                if dm and self.arrays:
                    return self.call_func(dm, [self.descriptor_value(a, name), b, b.cls], {}, node)
                if dm:
                    return Term("attr", freeze(b), name)
            return self.cls_getattr(c, name)
        return Term("attr", freeze(b), name, typ=self.attr_type(c, name))

    def descriptor_value(self, a, name):
        """The descriptor a class attribute holds, one per class."""
        key = ("descriptor", a[0].qual, name)
        d = self._const_cache.get(key)
        if d is None:
            d = self.rd(self.eval_static(a[0].module, a[1], a[0]))
            m = d.cls.find_method("__set_name__") if isinstance(d, Inst) else None
            if m:
                self.call_func(m, [d, a[0], name], {})
            if not isinstance(d, Inst):
                raise AnalysisError(f"descriptor {name} is not an instance")
            self._const_cache[key] = d
        return d

    def descriptor(self, c, call):
        r = self.prog.resolve_expr(c.module, call.func)
        return r and r[0] == "class" and r[1].find_method("__get__")

    def attr_type(self, c, name):
        """Declared type of an instance attribute, or None."""
        key = ("attrtype", c.qual, name)
        if key in self._const_cache:
            return self._const_cache[key]
        t = None
        a = c.find_ann(name)
        if a:
            t = self.prog.parse_ann(a[0].module, a[1], a[0])
        else:
            for k in c.mro():
                for m in k.methods.values():
                    if m.name not in ("__init__", "__post_init__", "__new__"):
                        continue
                    anns = {p.arg: p.annotation for p in m.params}
                    for n in ast.walk(m.node):
                        tgt, val, ann = None, None, None
                        if isinstance(n, ast.AnnAssign):
                            tgt, val, ann = n.target, n.value, n.annotation
                        elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                            tgt, val = n.targets[0], n.value
                        if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self" and tgt.attr == name:
                            if ann is not None:
                                t = self.prog.parse_ann(k.module, ann, k)
                            elif isinstance(val, ast.Name) and anns.get(val.id) is not None:
                                t = self.prog.parse_ann(k.module, anns[val.id], k)
                            elif isinstance(val, ast.Call):
                                r = self.prog.resolve_expr(k.module, val.func)
                                if r and r[0] == "class":
                                    t = ("cls", r[1])
                                elif isinstance(val.func, ast.Name) and val.func.id in ("set", "list", "dict") and r is None:
                                    t = {"set": ("set", ANY_T, "set"), "list": ("seq", ANY_T, "list"), "dict": ("map", ANY_T, ANY_T, "dict")}[val.func.id]
                                    if val.args and isinstance(val.args[0], ast.Name) and anns.get(val.args[0].id) is not None:
                                        et = elem_type(self.prog.parse_ann(k.module, anns[val.args[0].id], k))
                                        if et and t[0] in ("set", "seq"):
                                            t = (t[0], et, t[2])
                            elif isinstance(val, (ast.List, ast.ListComp)):
                                t = ("seq", ANY_T, "list")
                            elif isinstance(val, (ast.Dict, ast.DictComp)):
                                t = ("map", ANY_T, ANY_T, "dict")
                            elif isinstance(val, (ast.Set, ast.SetComp)):
                                t = ("set", ANY_T, "set")
                        if t:
                            break
                    if t:
                        break
                if t:
                    break
        if t == ANY_T:
            t = None
        self._const_cache[key] = t
        return t

    def term_getattr(self, b, name, node):
        if self.arrays and name in ("real", "imag"):
            from . import arrays

            if arrays.is_number(b):
                return getattr(arrays, name)(b)
        key = (b, name)
        if key in self.st.attrs:
            return self.rd(self.st.attrs[key])
        if b.op == "new":
            for k, v in b.args[1]:
                if k == name:
                    return self.rd(v)
        if b.op == "exc":
            return Term("attr", b, name)
        alts = self.alts(b)
        if alts is None or any(x[0] in ("any", "ext", "tvar", "prim", "seq", "set", "map", "tup", "callable") for x in alts):
            if alts is not None:
                cl = [x for x in alts if x[0] in ("exact", "cls", "enum")]
                if cl and len(cl) < len(alts) and not all(x[0] == "none" for x in alts if x not in cl):
                    # mixed: attribute exists only on one side?
                    has = [x for x in alts if x[0] in ("exact", "cls", "enum") and self.has_attr(x[1], name)]
                    prims = [x for x in alts if x[0] in ("prim",)]
                    if has and len(prims) == len(alts) - len(cl):
                        alts = tuple(has)
                        return self.term_getattr_cls(b, name, alts, node)
                if alts and all(x[0] in ("set", "seq", "map", "tup", "prim", "none") for x in alts):
                    return BoundBuiltin(b, name)
            if self.is_set(b) or (b.op in ("sorted", "lst", "comp", "list", "items", "str")):
                return BoundBuiltin(b, name)
            if alts is not None and len(alts) == 1 and alts[0][0] == "ext":
                return Term("attr", b, name)
            return Term("attr", b, name)
        alts = tuple(x for x in alts if x != ("none",))
        if not alts:
            raise Raise_("AttributeError", (name,), node, True)
        return self.term_getattr_cls(b, name, alts, node)

    def has_attr(self, c, name):
        if c.find_method(name) or c.find_assign(name) or c.find_ann(name) or name in c.nested or self.attr_type(c, name):
            return True
        if name in ("name", "value") and c.is_enum:
            return True
        for k in c.mro():
            for m in k.methods.values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def term_getattr_cls(self, b, name, alts, node):
        if name == "__class__":
            if len(alts) > 1:
                alts = (self.pick_class(b, alts),)
            return alts[0][1]

        def resolve(x):
            c = x[1]
            if x[0] == "enum":
                if name in ("name", "value"):
                    return ("attr", name)
            f = {f[0]: f for f in c.fields()}
            cv = c.classvars()
            m = c.find_method(name)
            if m:
                return ("method", m)
            if name in cv:
                return ("classvar", c, name)
            if name in f:
                return ("field", self.prog.parse_ann(f[name][3].module, f[name][1], f[name][3]))
            if c.find_assign(name):
                if isinstance(c.find_assign(name)[1], ast.Call) and self.descriptor(*c.find_assign(name)):
                    return ("field", FLOATT)
                return ("classvar", c, name)
            return ("field", self.attr_type(c, name))

        rs = [(x, resolve(x)) for x in alts]
        kinds = {r[0] for _, r in rs}
        if len(alts) > 1 and (kinds != {"field"} or False):
            if kinds == {"method"} and len({r[1] for _, r in rs}) == 1:
                pass
            elif kinds == {"classvar"}:
                vals = {}
                for x, r in rs:
                    vals.setdefault(freeze(self.class_attr(r[1], name)), []).append(x)
                if len(vals) > 1:
                    x = self.pick_class(b, alts)
                    rs = [(x, resolve(x))]
            elif kinds == {"method"} and all(r[1].is_abstract or True for _, r in rs) and all(x[1].find_method(name).is_abstract for x, _ in rs):
                pass
            elif kinds == {"method"}:
                # a method overridden by subclasses: dispatch is left open when it is opaque for all
                if all(self.is_opaque(r[1]) for _, r in rs):
                    base = common_base([x[1] for x, _ in rs], name)
                    if base is not None:
                        m = base.find_method(name)
                        if m.is_property:
                            return Term("attr", b, name, typ=self.ret_type(m, base))
                        return FuncVal(m, self_=b)
                x = self.pick_class(b, alts)
                rs = [(x, resolve(x))]
            else:
                x = self.pick_class(b, alts)
                rs = [(x, resolve(x))]
        x, r = rs[0]
        if r[0] == "attr":
            return Term("attr", b, name, typ=STRT if name == "name" else None)
        if r[0] == "method":
            m = r[1]
            if m.is_property:
                if any("cached_property" in d for d in m.decorators):
                    return self.call_func(m, [b], {}, node)
                return self.call_func(m, [b], {}, node)
            return FuncVal(m, self_=x[1] if m.is_classmethod else (None if m.is_static else b))
        if r[0] == "classvar":
            return self.rd(self.cls_getattr(r[1], name))
        ts = [q[1] for _, q in rs if q[0] == "field" and q[1]]
        return self.rd(Term("attr", b, name, typ=mk_union(ts) if ts else None))

    def setattr(self, b, name, v, node=None):
        b = self.rd(b)
        self.event("setattr", name, {"obj": freeze(b), "value": freeze(v)}, node, value=v)
        if isinstance(b, Inst):
            a = b.cls.find_assign(name) if self.arrays and isinstance(b.cls, Class) else None
            if a and isinstance(a[1], ast.Call) and (r := self.prog.resolve_expr(a[0].module, a[1].func)) and r[0] == "class" and (m := r[1].find_method("__set__")):
                self.call_func(m, [self.descriptor_value(a, name), b, v], {}, node)
                return
            b.fields[name] = v
        elif isinstance(b, Term):
            self.st.attrs[(b, name)] = v

    # ------------------------------------------------------------ items
    def getitem(self, b, k, node=None):
        b, k = self.rd(b), self.rd(k)
        if isinstance(b, (tuple, str)):
            if isinstance(k, int) and not isinstance(k, bool):
                try:
                    return b[k]
                except IndexError:
                    raise Raise_("IndexError", (), node, True) from None
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return b[k]
            if isinstance(k, tuple) and len(k) == 1:
                return self.getitem(b, k[0])
        if isinstance(b, ListV):
            if b.kind == "array" and isinstance(k, tuple) and all(isinstance(x, int) for x in k):
                v = b
                for i in k:
                    v = self.getitem(v, i, node)
                return v
            if isinstance(k, int) and not isinstance(k, bool):
                its = b.items
                if b.exact:
                    if -len(its) <= k < len(its):
                        return self.rd(its[k])
                    raise Raise_("IndexError", (), node, True)
                if k >= 0 and all(not isinstance(x, Splat) for x in its[: k + 1]) and k < len(its):
                    return self.rd(its[k])
                if k < 0 and -k <= len(its) and all(not isinstance(x, Splat) for x in its[k:]):
                    return self.rd(its[k])
            if isinstance(k, slice) and b.exact and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return self.mklist(b.items[k], b.kind)
            if b.kind == "array" and b.exact and isinstance(k, tuple) and all(isinstance(x, int) or (isinstance(x, slice) and x == slice(None)) for x in k):
                pass
            if isinstance(k, Term) and b.exact and b.items and len(b.items) <= 32:
                for i, x in enumerate(b.items):
                    if self.truth(self.equal(k, i)):
                        return self.rd(x)
                raise Raise_("IndexError", (), node, True)
        if isinstance(b, DictV):
            fk = freeze(k)
            if fk in b.items:
                return self.rd(b.items[fk][1])
            if b.items and len(b.items) <= 64:
                for kk, vv in list(b.items.values()):
                    if self.truth(self.equal(k, kk)):
                        return self.rd(vv)
            if not b.rest:
                if b.default is not None:
                    v = self.call(b.default, [], {}, node)
                    b.items[fk] = (k, v)
                    return v
                raise Raise_("KeyError", (fk,), node, True)
            if len(b.rest) == 1 and not b.items:
                r = b.rest[0].term
                vt = r.typ[2] if isinstance(r, Term) and r.typ and r.typ[0] == "map" else None
                g = self.dict_lookup(r, fk)
                if g is not None:
                    return self.rd(g)
                return self.rd(Term("getitem", r, fk, typ=vt))
            return self.rd(Term("getitem", freeze(b), fk))
        if isinstance(b, Class) and b.is_enum:
            if isinstance(k, str):
                return EnumVal(b, k)
            return Term("enumitem", b.qual, freeze(k), typ=("cls", b))
        if isinstance(b, Inst):
            if b.cls.is_namedtuple and isinstance(k, int):
                return list(b.fields.values())[k]
            m = b.cls.find_method("__getitem__")
            if m:
                return self.call_func(m, [b, k], {}, node)
        if isinstance(b, Term):
            typ = None
            t = b.typ
            if t and t[0] == "uni":
                ts = [x for x in t[1] if x != ("none",)]
                t = ts[0] if len(ts) == 1 else None
            if t:
                if t[0] == "tup" and isinstance(k, int) and -len(t[1]) <= k < len(t[1]):
                    typ = t[1][k]
                    if k < 0:
                        k += len(t[1])
                elif t[0] == "seq" and not isinstance(k, slice):
                    typ = t[1]
                elif t[0] == "seq":
                    typ = t
                elif t[0] == "map":
                    typ = t[2]
                elif t[0] in ("cls", "exact"):
                    r = self.class_op(b, "__getitem__", [k])
                    if r is not None:
                        return r
            if b.op == "list" and isinstance(k, int) and not any(isinstance(x, Term) and x.op == "splat" for x in b.args):
                if -len(b.args) <= k < len(b.args):
                    return self.rd(b.args[k])
                raise Raise_("IndexError", (), node, True)
            if b.op == "dcomp":
                g = self.dict_lookup(b, freeze(k))
                if g is not None:
                    return self.rd(g)
            if b.op == "dict" and not b.args[1]:
                for kk, vv in b.args[0]:
                    if kk == freeze(k):
                        return self.rd(vv)
            return self.rd(Term("getitem", b, freeze(k), typ=typ))
        return Term("getitem", freeze(b), freeze(k))

    def dict_lookup(self, t, k):
        """Value of a dict comprehension at a key bound by it."""
        if isinstance(t, Term) and t.op == "dcomp" and len(t.args[0]) == 1:
            (ctx, gs, vals), = t.args[0]
            if len(ctx) == 1 and len(vals) == 1 and isinstance(vals[0], tuple) and len(vals[0]) == 2 and vals[0][0] == ctx[0][1]:
                return substitute(vals[0][1], {ctx[0][1]: k})
        return None

    def setitem(self, b, k, v, node=None):
        b, k = self.rd(b), self.rd(k)
        self.event("setitem", "setitem", {"obj": freeze(b), "key": freeze(k), "value": freeze(v)}, node, value=v)
        if isinstance(b, Term):
            alts = self.alts(b)
            if alts and all(x[0] in ("exact", "cls") for x in alts):
                r = self.class_op(b, "__setitem__", [k, v])
                return
            b = self.materialise(b, "dict")
        if isinstance(b, DictV):
            fk = freeze(k)
            if b.rest and fk not in b.items:
                pass
            b.items[fk] = (k, v)
        elif isinstance(b, ListV):
            if isinstance(k, int) and b.exact and -len(b.items) <= k < len(b.items):
                b.items[k] = v
            elif isinstance(k, slice) and b.kind == "list" and b.exact and k.step is None and all(x is None or isinstance(x, int) for x in (k.start, k.stop)):
                b.items[k] = self.as_items(v)
            elif b.kind == "array" and isinstance(k, tuple) and all(isinstance(x, int) for x in k):
                x = b
                for i in k[:-1]:
                    x = self.rd(x.items[i])
                x.items[k[-1]] = v
            else:
                old = freeze(b)
                b.items = [Splat(Term("upd", old, freeze(k), freeze(v)))]
        elif isinstance(b, Inst):
            m = b.cls.find_method("__setitem__")
            if m:
                self.call_func(m, [b, k, v], {}, node)

    def delitem(self, b, k, node=None):
        b, k = self.rd(b), self.rd(k)
        self.event("delitem", "delitem", {"obj": freeze(b), "key": freeze(k)}, node)
        if isinstance(b, Term):
            b = self.materialise(b, "dict")
        if isinstance(b, DictV):
            fk = freeze(k)
            if fk in b.items:
                del b.items[fk]
            elif b.rest:
                old = freeze(b)
                b.items, b.rest = {}, [Splat(Term("without", old, fk, typ=b.typ))]
        elif isinstance(b, ListV):
            if isinstance(k, int) and b.exact:
                del b.items[k]
            else:
                b.items = [Splat(Term("without", freeze(b), freeze(k)))]

    def materialise(self, t, hint=None):
        """Mutable container standing for a term which is modified in place."""
        if t in self.st.overlay:
            return self.st.overlay[t]
        typ = t.typ
        if typ and typ[0] == "uni":
            ts = [x for x in typ[1] if x != ("none",)]
            typ = ts[0] if len(ts) == 1 else typ
        kind = typ[0] if typ else None
        if kind == "set" or (kind is None and hint == "set"):
            o = self.mkset(t)
        elif kind == "map" or (kind is None and hint == "dict"):
            o = self.mkdict({}, [Splat(t)])
            o.typ = t.typ
        else:
            o = self.mklist([Splat(t)])
        self.st.overlay[t] = o
        return o

    # ------------------------------------------------------------ isinstance
    def isinstance(self, v, c):
        v = self.rd(v)
        cs = list(c) if isinstance(c, tuple) else [c]
        flat = []
        for x in cs:
            x = self.rd(x)
            if isinstance(x, Term) and x.op == "union":
                flat.extend(x.args)
            elif isinstance(x, tuple):
                flat.extend(x)
            else:
                flat.append(x)
        names = set()
        for x in flat:
            if isinstance(x, Class):
                names.add(x.name)
            elif isinstance(x, Ext):
                names.add(x.name.split(".")[-1])
            elif isinstance(x, Term):
                names.add(show(x))
        classes = [x for x in flat if isinstance(x, Class)]
        if isinstance(v, (Inst, EnumVal)):
            if any(v.cls.is_subclass(x) for x in classes):
                return True
            if any(isinstance(x, Ext) and x.name in v.cls.external_bases() for x in flat):
                return True
            if any(_is_protocol(x) and not x.node.bases == [] and self.proto_ok(v.cls, x) for x in classes):
                return True
            if any(n.startswith("Supports") and v.cls.find_method(f"__{n[8:].lower()}__") for n in names):
                return True
            abc = {"Iterable": ("iter",), "Iterator": ("iter", "next"), "Sized": ("len",), "Container": ("contains",), "Collection": ("iter", "len", "contains"), "Callable": ("call",)}
            if any(isinstance(x, Ext) and all(v.cls.find_method(f"__{m}__") for m in abc.get(x.name.split(".")[-1], ("?",))) for x in flat):
                return True
            return False
        prim = {"int": lambda: is_num(v) and not isinstance(v, Fraction) or isinstance(v, bool), "bool": lambda: isinstance(v, bool), "float": lambda: isinstance(v, (Fraction, float)),
                "str": lambda: isinstance(v, str), "tuple": lambda: isinstance(v, tuple) or (isinstance(v, ListV) and v.kind == "tuple"),
                "list": lambda: isinstance(v, ListV) and v.kind == "list", "dict": lambda: isinstance(v, DictV), "set": lambda: isinstance(v, SetV),
                "Mapping": lambda: isinstance(v, DictV), "Iterable": lambda: isinstance(v, (ListV, tuple, SetV, DictV, str)), "NoneType": lambda: v is None,
                "Sequence": lambda: isinstance(v, (ListV, tuple)), "complex": lambda: False, "SupportsFloat": lambda: is_num(v) or isinstance(v, float),
                "SupportsComplex": lambda: is_num(v), "Set": lambda: isinstance(v, SetV), "ndarray": lambda: isinstance(v, ListV) and v.kind == "array", "Number": lambda: is_num(v)}
        if not isinstance(v, Term):
            return any(prim.get(n, lambda: False)() for n in names)
        if v.op == "amp":
            return bool(names & {"complex", "SupportsComplex", "Complex", "Number"})
        if v.op in ("imag", "poly") and all(m in ((), ((IMAG, 1),)) for m in to_poly(v)):
            return bool(names & {"complex", "SupportsComplex", "Complex", "Number"})
        if v.op in ("setlit", "xor", "or", "and", "setminus", "set"):
            if names & {"set", "Set", "AbstractSet", "Iterable"}:
                return True
        alts = self.alts(v)
        lab = frozenset(names)
        atom = Term("isinst", v, lab, typ=BOOLT)
        if alts is None:
            r = self.decide(atom)
            if r and len(classes) == len(flat) and classes:
                new = []
                for x in classes:
                    cands = [k for k in [x, *x.subclasses()] if not k.is_abstract and not _is_protocol(k)]
                    new.extend([("exact", k) for k in cands] or [("cls", x)])
                self.st.narrow[v] = tuple(new)
            elif r and len(names) == 1:
                n = next(iter(names))
                if n in ("int", "float", "str", "bool", "complex"):
                    self.st.narrow[v] = (("prim", n),)
            return r
        yes, no, maybe = [], [], []
        for x in alts:
            if x[0] in ("exact", "enum"):
                (yes if any(x[1].is_subclass(k) or (_is_protocol(k) and self.proto_ok(x[1], k)) for k in classes) else no).append(x)
            elif x[0] == "cls":
                if any(x[1].is_subclass(k) for k in classes):
                    yes.append(x)
                else:
                    maybe.append(x)
            elif x[0] == "none":
                (yes if "NoneType" in names else no).append(x)
            elif x[0] == "prim":
                if x[1] in names or (x[1] == "bool" and "int" in names) or (x[1] in ("int", "float") and names & {"SupportsFloat", "Number", "Real"}) or (x[1] == "int" and names & {"SupportsInt", "SupportsIndex", "Integral"}) or (x[1] in ("int", "float", "complex") and names & {"SupportsComplex"} and False):
                    yes.append(x)
                elif x[1] == "float" and "int" in names:
                    maybe.append(x)  # an int is acceptable where a float is declared
                elif x[1] == "str" and names & {"Iterable", "Sequence"}:
                    yes.append(x)
                elif x[1] in ("float", "complex") and names & {"float", "int", "SupportsComplex", "SupportsFloat"}:
                    maybe.append(x)
                else:
                    no.append(x)
            elif x[0] in ("seq", "set", "map", "tup"):
                cn = {"seq": x[2] if x[0] == "seq" else "", "set": "set", "map": "dict", "tup": "tuple"}[x[0]]
                if cn in names or names & {"Iterable", "Collection"} or (x[0] == "map" and "Mapping" in names) or (x[0] in ("seq", "tup") and cn != "Iterable" and "Sequence" in names) or (x[0] == "set" and names & {"Set", "AbstractSet"}):
                    yes.append(x)
                elif x[0] in ("tup", "map") or (classes and len(classes) == len(flat)):
                    no.append(x)
                elif x[0] == "set" and names & {"Mapping", "dict", "str", "list", "tuple"}:
                    no.append(x)
                else:
                    maybe.append(x)
            else:
                maybe.append(x)
        if not maybe:
            if not no:
                return True
            if not yes:
                return False
        k = self.st.known.get(atom)
        if k is None:
            k = self.choose(2) == 0
            self.st.known[atom] = k
            ylab = frozenset(type_label(x) for x in yes)
            self.add_guard(Term("isinst", v, ylab if ylab and not maybe else lab, typ=BOOLT), k)
        self.set_narrow(v, tuple(yes + maybe) if k else tuple(no + maybe))
        return k

    def proto_ok(self, c, proto):
        return all(c.find_method(n) for n in proto.methods if not n.startswith("__init"))

    # ------------------------------------------------------------ calls
    def is_opaque(self, f: Func):
        if f.is_abstract:
            return True
        if self._inline is not None and not self._inline(f):
            return True
        return self._opaque(f)

    def ret_type(self, f: Func, c=None):
        if isinstance(f.node, ast.Lambda):
            return None
        t = self.prog.parse_ann(f.module, f.node.returns, c or f.cls)
        if t == ANY_T:
            return None
        return t

    def bind(self, f: Func, args, kwargs, evaluate_defaults=True):
        """Map parameter names to values; raises AnalysisError when it does not fit."""
        a = f.node.args
        pos = [*a.posonlyargs, *a.args]
        out = {}
        args = list(args)
        exact = not any(isinstance(x, Splat) for x in args)
        i = 0
        for p in pos:
            if i < len(args):
                if isinstance(args[i], Splat):
                    out[p.arg] = Term("argsplat", args[i].term, p.arg)
                    if i == len(args) - 1:
                        continue
                else:
                    out[p.arg] = args[i]
                i += 1
        rest = args[i:] if exact else args[i:]
        if a.vararg:
            out[a.vararg.arg] = tuple(rest) if not any(isinstance(x, Splat) for x in rest) else self.mklist(rest, "tuple")
        elif rest and exact:
            raise Raise_("TypeError", (f"too many arguments for {f.qual}",), None, True)
        extra = {}
        names = {p.arg for p in pos if p not in a.posonlyargs} | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k == "**":
                continue
            if k in names:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raise_("TypeError", (f"unexpected argument {k} for {f.qual}",), None, True)
        star = kwargs.get("**")
        if a.kwarg:
            d = self.mkdict({k: (k, v) for k, v in extra.items()})
            if star:
                d.rest = [Splat(x) for x in star]
            out[a.kwarg.arg] = d
        defaults = {}
        for p, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
            defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for p in [*pos, *a.kwonlyargs]:
            if p.arg not in out:
                if star and p in a.kwonlyargs:
                    out[p.arg] = Term("kwsplat", star[0], p.arg)
                elif p.arg in defaults and evaluate_defaults:
                    if f.parent is None:
                        v = self.eval_static(f.module, defaults[p.arg], f.cls)
                        if v is None and not (isinstance(defaults[p.arg], ast.Constant) and defaults[p.arg].value is None):
                            v = Term("default", f.qual, p.arg)
                        out[p.arg] = v
                    else:
                        out[p.arg] = self.eval(defaults[p.arg]) if isinstance(defaults[p.arg], ast.Constant) else Term("default", f.qual, p.arg)
                elif p.arg in defaults:
                    pass
                else:
                    raise Raise_("TypeError", (f"missing argument {p.arg} for {f.qual}",), None, True)
        return out

    def call_func(self, f: Func, args, kwargs, node=None, closure=None, cls_ctx=None):
        bound = self.bind(f, args, kwargs)
        lam = isinstance(f.node, ast.Lambda)
        recursive = sum(1 for fr in self.stack if fr.func is f) >= self.max_rec
        hook = self.hooks.get(f.qual) if self.hooks else None
        if hook is not None:
            r = hook(self, bound, node)
            if r is not NotImplemented:
                return r
        if not lam and (recursive or len(self.stack) > self.max_depth or self.is_opaque(f)):
            return self.opaque_call(f, bound, node, args)
        fr = Frame(f, f.module, f.cls or cls_ctx, closure)
        self.st.heap.append(fr)
        ps = {p.arg: p for p in f.params}
        for k, v in bound.items():
            if isinstance(v, Term) and v.typ is None and k in ps and v.op not in ("new",):
                t = self.prog.parse_ann(f.module, ps[k].annotation, f.cls)
                if t != ANY_T and ps[k].annotation is not None and f.node.args.vararg is not ps[k] and f.node.args.kwarg is not ps[k]:
                    v = Term(v.op, *v.args, typ=t)
            fr.env[k] = v
        fr.env.update({})
        return self.run_func(f, fr)



    def opaque_call(self, f, bound, node, args=()):
        fz = {k: freeze(v) for k, v in bound.items()}
        rt = self.ret_type(f)
        if rt and rt[0] == "tvar":
            rt = None
        val = Term("call", f.qual, tuple(sorted(fz.items())), typ=rt)
        if rt == ("none",):
            val = None
        self.event("call", f.qual, fz, node, value=bound, extra=f)
        for v in bound.values():
            pass
        return val

    def eval_args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.as_items(self.eval(a.value)))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                v = self.rd(v)
                if isinstance(v, DictV):
                    for kk, vv in v.items.values():
                        kwargs[kk] = vv
                    if v.rest:
                        kwargs.setdefault("**", []).extend(r.term for r in v.rest)
                else:
                    kwargs.setdefault("**", []).append(freeze(v))
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Call(self, e):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and self._is_builtin("super"):
            return self.mk_super(e)
        f = self.eval(fn)
        if isinstance(f, Ext) and f.name in ("builtins.any", "builtins.all") and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            return self.any_all(f.name.endswith("any"), e.args[0])
        args, kwargs = self.eval_args(e)
        return self.call(f, args, kwargs, e)

    def _is_builtin(self, n):
        return True

    def mk_super(self, e):
        fr = self.fr
        c = fr.cls
        slf = None
        while fr is not None:
            if fr.func.cls is not None and fr.func.params:
                slf = fr.env.get(fr.func.params[0].arg)
                c = fr.func.cls
                break
            fr = fr.parent
        mro = c.mro()
        if isinstance(slf, Class):
            mro = slf.mro()
        elif isinstance(slf, (Inst, EnumVal)):
            mro = slf.cls.mro()
        elif isinstance(slf, Term):
            al = self.alts(slf)
            if al and len(al) == 1 and al[0][0] == "exact":
                mro = al[0][1].mro()
        i = mro.index(c) if c in mro else -1
        return SuperV(mro[i + 1 :], slf)

    def any_all(self, is_any, gen):
        def elt():
            t = self.truth(self.eval(gen.elt))
            return t
        its = self.comp_eval(gen, elt)
        vals = [x for x in its if not isinstance(x, Splat)]
        sp = [x.term for x in its if isinstance(x, Splat)]
        want = is_any
        if any(v is want for v in vals):
            return is_any
        atoms = []
        for t in sp:
            if t.op == "comp":
                byctx = {}
                for ctx, gs, vv in t.args[0]:
                    byctx.setdefault(ctx, [])
                    if any(v is want for v in vv):
                        byctx[ctx].append(gs)
                for ctx, dnf in byctx.items():
                    atoms.append(mk_exists(ctx, dnf))
            else:
                atoms.append(Term("exists", ((t, Term("elem", t)),), frozenset([frozenset([(Term("truthy", Term("elem", t)), want)])]), typ=BOOLT))
        atoms = [a for a in atoms if a is not False]
        if not atoms:
            return not is_any
        r = atoms[0] if len(atoms) == 1 else self.disj(atoms)
        if is_any:
            return r
        return self.negv(r)

    def call(self, f, args, kwargs, node=None):
        f = self.rd(f)
        if isinstance(f, FuncVal):
            if f.self_ is not None:
                args = [f.self_, *args]
            return self.call_func(f.func, args, kwargs, node, closure=f.closure, cls_ctx=f.cls_ctx)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, Class):
            return self.construct(f, args, kwargs, node)
        if isinstance(f, Partial):
            return self.call(f.fn, [*f.args, *args], {**f.kwargs, **kwargs}, node)
        if isinstance(f, BoundBuiltin) and f.name == "__new__" and isinstance(f.base, Class) and len(args) == 1 and not kwargs and isinstance(self.rd(args[0]), Class):
            return self.new(Inst(self.rd(args[0]), {}))
        if isinstance(f, BoundBuiltin) and f.name == "__dcinit__":
            self.dc_init(self.rd(args[0]), f.base, args[1:], kwargs, node)
            return None
        if isinstance(f, BoundBuiltin):
            return self.method(f.base, f.name, args, kwargs, node)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs, node)
        if isinstance(f, Inst):
            m = f.cls.find_method("__call__")
            if m:
                return self.call_func(m, [f, *args], kwargs, node)
        if isinstance(f, Term):
            if f.op == "attr":
                return self.term_method(f.args[0], f.args[1], args, kwargs, node)
            if f.op == "bound":
                return self.method(self.rd(f.args[0]), f.args[1], args, kwargs, node)
            if f.op == "partial":
                return self.call(f.args[0], [*f.args[1], *args], {**dict(f.args[2]), **kwargs}, node)
            if f.op == "func":
                fn = self.prog.funcs.get(f.args[0])
                if fn is not None:
                    return self.call_func(fn, args, kwargs, node)
            if f.op == "method":
                fn = self.prog.funcs.get(f.args[1])
                if fn is not None:
                    return self.call_func(fn, [f.args[0], *args], kwargs, node)
            if f.op == "classref":
                return self.construct(self.prog.classes[f.args[0]], args, kwargs, node)
            r = self.class_op(f, "__call__", args)
            if r is not None:
                return r
            fz = tuple(freeze(a) for a in args)
            fk = tuple(sorted((k, freeze(v)) for k, v in kwargs.items() if k != "**"))
            self.event("call", "<value>", {"fn": f, **{str(i): a for i, a in enumerate(fz)}, **dict(fk)}, node, value=args)
            rt = f.typ[1] if f.typ and f.typ[0] == "callable" else None
            return Term("app", f, fz, fk, typ=rt)
        raise AnalysisError(f"call of {f!r} at {self.cur.loc(node) if node else self.cur.qual}")

    def construct(self, c: Class, args, kwargs, node=None):
        if self.arrays and (m := c.find_method("__new__")) is not None:
            return self.call_func(m, [c, *args], kwargs, node)
        if c.is_enum:
            v = self.rd(args[0])
            for n in c.enum_members():
                ev = self.enum_getattr(EnumVal(c, n), "value")
                if not isinstance(v, Term) and ev is not None and freeze(ev) == freeze(v):
                    return EnumVal(c, n)
            return Term("enumof", c.qual, freeze(v), typ=("cls", c))
        init = c.find_method("__init__")
        if c.name in self.abstract_new or c.qual in self.abstract_new:
            init = None if c.is_dataclass else init
        if c.is_dataclass and (init is None or init.cls is None or (init.cls is not c and init.cls in c.mro() and c.mro().index(init.cls) > 0)):
            init_own = None
            for k in c.mro():
                if "__init__" in k.methods:
                    init_own = k.methods["__init__"]
                    break
                if k.is_dataclass:
                    break
            init = init_own
        inst = self.new(Inst(c))
        inst.partial = False
        if init is None:
            k = next((k for k in c.mro() if k.is_dataclass or k.is_namedtuple), None)
            if k is not None:
                return self.dc_init(inst, k, args, kwargs, node)
        if init is None or self.is_opaque(init) and not c.is_dataclass:
            if init is not None:
                b = self.bind(init, [inst, *args], kwargs)
                ps = init.params
                b.pop(ps[0].arg, None)
                inst.fields = dict(b)
                self.event("new", c.qual, {k: freeze(v) for k, v in b.items()}, node, value=inst)
                return Term("new", c.qual, tuple((k, freeze(v)) for k, v in b.items()), typ=("exact", c))
            inst.fields = {f"arg{i}": a for i, a in enumerate(args)}
            inst.fields.update({k: v for k, v in kwargs.items() if k != "**"})
            return inst
        self.call_func(init, [inst, *args], kwargs, node)
        return inst

    def dc_init(self, inst, c, args, kwargs, node):
        """Generated initialiser of a dataclass."""
        fs = c.fields()
        vals = {}
        args = list(args)
        initf, kwonly = [], bool(c.dc_kwargs.get("kw_only"))
        for n, ann, d, own in fs:
            if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                kw = {k.arg: k.value for k in d.keywords}
                if "init" in kw and isinstance(kw["init"], ast.Constant) and kw["init"].value is False:
                    continue
            initf.append(n)
        if args and any(isinstance(a, Splat) for a in args):
            i = 0
            for a in args:
                if isinstance(a, Splat):
                    for j, n in enumerate(initf[i:]):
                        vals[n] = Term("getitem", a.term, j)
                    i = len(initf)
                else:
                    vals[initf[i]] = a
                    i += 1
        else:
            if len(args) > len([n for n in initf if n not in c.kw_only]):
                raise Raise_("TypeError", (f"too many arguments for {c.name}",), node, True)
            for n, a in zip(initf, args):
                vals[n] = a
        for k, v in kwargs.items():
            if k == "**":
                for n in initf:
                    if n not in vals:
                        vals[n] = Term("kwsplat", v[0], n)
                continue
            if k not in initf:
                raise Raise_("TypeError", (f"unexpected argument {k} for {c.name}",), node, True)
            vals[k] = v
        for n, ann, d, own in fs:
            if n in vals:
                v = vals[n]
                if isinstance(v, Term) and v.typ is None:
                    t = self.prog.parse_ann(own.module, ann, own)
                    if t != ANY_T:
                        v = Term(v.op, *v.args, typ=t)
                inst.fields[n] = v
                continue
            if d is None:
                if n in initf:
                    raise Raise_("TypeError", (f"missing argument {n} for {c.name}",), node, True)
                continue
            inst.fields[n] = self.field_default(own, n, d)
        post = inst.cls.find_method("__post_init__")
        if post and not self.is_opaque(post):
            self.call_func(post, [inst], {}, node)
        return inst

    def field_default(self, own, n, d):
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
            kw = {k.arg: k.value for k in d.keywords}
            if "default_factory" in kw:
                fac = kw["default_factory"]
                if self.arrays:
                    f = Func("<lambda>", own.module.name, ast.Lambda(args=ast.arguments([], [], None, [], [], None, []), body=ast.fix_missing_locations(ast.copy_location(ast.Call(func=fac, args=[], keywords=[]), fac))), own.module, None)
                    return self.call_func(f, [], {})
                v = self.eval_static(own.module, ast.Call(func=fac, args=[], keywords=[]), own)
                if isinstance(v, Obj):
                    return self.adopt(v)
                return v
            if "default" in kw:
                return self.class_attr(own, n)
            return Term("unset", n)
        v = self.class_attr(own, n)
        return v

    def adopt(self, v):
        """Fresh copy of a container built by a static evaluation."""
        if isinstance(v, Inst) and any(x is v for x in v.fields.values()):
            return v
        if isinstance(v, ListV):
            return self.mklist([self.adopt(x) for x in v.items], v.kind)
        if isinstance(v, SetV):
            return self.mkset(v.term)
        if isinstance(v, DictV):
            d = self.mkdict({k: (x[0], self.adopt(x[1])) for k, x in v.items.items()}, v.rest)
            return d
        if isinstance(v, Inst):
            return self.new(Inst(v.cls, {k: self.adopt(x) for k, x in v.fields.items()}))
        return v


class SuperV:
    __slots__ = ("mro", "self_")

    def __init__(self, mro, self_):
        self.mro, self.self_ = mro, self_


# ---------------------------------------------------------------- helpers
def _frac(x):
    if x != x or x in (float("inf"), float("-inf")):
        return x
    f = Fraction(repr(x))
    return int(f) if f.denominator == 1 else f


def _is_protocol(c):
    return any(b.split(".")[-1].startswith("Protocol") for b in c.bases if isinstance(b, str))


def _hname(h):
    if h.type is None:
        return "Exception"
    t = h.type.elts[0] if isinstance(h.type, ast.Tuple) else h.type
    return ast.unparse(t).split(".")[-1]


def type_label(x):
    if x[0] in ("exact", "cls", "enum"):
        return x[1].name
    if x[0] == "prim":
        return x[1]
    return x[0]


def typ_of(v):
    if isinstance(v, Term):
        return v.typ
    if isinstance(v, bool):
        return BOOLT
    if isinstance(v, int):
        return INTT
    if isinstance(v, (Fraction, float)):
        return FLOATT
    if isinstance(v, str):
        return STRT
    if isinstance(v, Inst):
        return ("exact", v.cls)
    if isinstance(v, EnumVal):
        return ("cls", v.cls)
    if isinstance(v, SetV):
        return typ_of(v.term) or ("set", ANY_T, "set")
    if isinstance(v, ListV):
        return ("seq", ANY_T, "list")
    if isinstance(v, DictV):
        return v.typ or ("map", ANY_T, ANY_T, "dict")
    return None


def is_atom(v):
    return isinstance(v, Term) and v.op in ("eq", "in", "lt0", "isnone", "isinst", "truthy", "exists", "not")


def is_scalar(t):
    return isinstance(t, Term) and (t.op in ("poly", "imag", "sqrt", "exp", "cos", "sin", "pow", "inv", "abs") or t.typ in (FLOATT, INTT) or t.op == "var" or t.typ == ("prim", "complex"))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Obj) or isinstance(b, Obj):
        return False
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def assigned_names(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.append(n.id)
    return out


def mk_comp(alts):
    """Comprehension: alternatives (ctx, guards, values)."""
    by = {}
    for ctx, gs, vals in alts:
        by.setdefault((tuple(ctx), tuple(vals)), []).append(frozenset(gs))
    out = set()
    for (ctx, vals), dnf in by.items():
        if not vals:
            continue
        for g in minimise(dnf):
            out.add((ctx, g, vals))
    return Term("comp", frozenset(out))


def norm_comp_set(t):
    """A comprehension used as a set."""
    if not (isinstance(t, Term) and t.op == "comp"):
        return t
    parts, rest = [], set()
    for ctx, gs, vals in t.args[0]:
        if len(ctx) == 1 and vals == (ctx[0][1],):
            it, el = ctx[0]
            if not gs:
                parts.append(it)
                continue
            if len(gs) == 1:
                ((a, v),) = gs
                if a.op == "in" and a.args[0] == el and el not in subterms(a.args[1]):
                    parts.append(and_norm([it, a.args[1]]) if v else minus_norm(it, a.args[1]))
                    continue
        # several values become several alternatives
        for v in vals:
            if isinstance(v, Term) and v.op == "splat":
                rest.add((ctx, gs, (v,)))
            else:
                rest.add((ctx, gs, (v,)))
    if rest:
        parts.append(Term("comp", frozenset(rest), typ=t.typ or ("set", ANY_T, "set")))
    return or_norm(parts) if parts else EMPTY


def mk_sum(t):
    """Sum of the items of a comprehension."""
    if isinstance(t, Term) and t.op == "comp":
        alts = t.args[0]
        if not alts:
            return 0
        if all(len(v) == 1 and is_num(v[0]) for _, _, v in alts) and False:
            return t
    return Term("sum", t, typ=INTT)


def mk_mod(a, n):
    # reduce the coefficients of a polynomial modulo n when they are integers
    if is_num(n) and not isinstance(n, Fraction) and isinstance(a, Term) and a.op == "poly":
        d = {}
        for m, c in a.args[0]:
            if c.denominator == 1 and all(isinstance(x, Term) and (typ_of(x) in (INTT, BOOLT) or x.op in ("sum", "len", "index", "int", "round")) for x, _ in m):
                c = Fraction(int(c) % int(n))
            elif m == ():
                c = c % int(n)
            d[m] = c
        a = from_poly(d)
        if is_num(a):
            r = a % n
            return int(r) if isinstance(r, Fraction) and r.denominator == 1 else r
    if isinstance(a, Term) and a.op == "mod" and a.args[1] == n:
        return a
    return Term("mod", a, n, typ=INTT if typ_of(a) == INTT or (isinstance(a, Term) and a.op == "sum") else typ_of(a))


def mk_str(parts):
    out = []
    for p in parts:
        ps = list(p.args) if isinstance(p, Term) and p.op == "str" else [p]
        for x in ps:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != "":
                out.append(x)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Term("str", *out, typ=STRT)


def common_base(classes, name):
    first = classes[0]
    for c in first.mro():
        if all(k.is_subclass(c) for k in classes) and c.find_method(name):
            return c
    return None
