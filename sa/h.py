"""Helpers shared by the rules: exploring functions and reading their traces."""

from __future__ import annotations

from . import arrays as _arrays
from . import branch as Br
from . import builtins_ as B
from . import mat
from .interp import Path, freeze, show_guards, substitute, subterms  # noqa: F401
from .program import AnalysisError, Class, Func  # noqa: F401
from .values import EnumVal, Term, is_num, show  # noqa: F401


def in_classes(g, names):
    """Whether a function is a method of one of the named classes (or of a subclass)."""
    c = g.cls
    return c is not None and any(k.name in names for k in c.mro())


def explore(rep, func, opaque=None, args=None, pre=None, **kw):
    if isinstance(func, str):
        func = rep.prog.func(func)
    rep.analysed(func)
    ai = B.AI(rep.prog, opaque=opaque, **kw)
    ps = ai.explore(func, args, pre)
    if not ps:
        raise AnalysisError(f"no feasible path in {func.qual}")
    return ps


def short(e):
    """Unqualified name of what an event calls."""
    return str(e.name).rsplit(".", 1)[-1]


def receiver(e):
    if isinstance(e.args, dict):
        if e.kind == "mcall" or "obj" in e.args:
            return e.args.get("obj")
        return e.args.get("self")
    return None


_MISSING = object()


def arg(e, name, pos=None, default=_MISSING):
    """Argument of a call event by parameter name, or by position when the callee was not resolved."""
    if name in e.args:
        return e.args[name]
    if pos is not None and str(pos) in e.args:
        return e.args[str(pos)]
    if default is not _MISSING:
        return default
    raise AnalysisError(f"argument {name} not found in call {e.name}")


def calls(path, *names):
    """(event, guards, ctx) of the calls to one of the names, in order."""
    for e, g, c in path.flat(("call", "mcall")):
        if short(e) in names:
            yield e, g, c


def gdict(guards):
    d = {}
    for a, v in guards:
        d[a] = v
    return d


def comp_single(t):
    """(iterable, element, guards, value) of a comprehension with a single generator and a single alternative."""
    if isinstance(t, Term) and t.op == "comp" and len(t.args[0]) == 1:
        (c, g, v) = next(iter(t.args[0]))
        if len(c) == 1 and len(v) == 1:
            it, el = c[0]
            return it, el, g, v[0]
    return None


def parity(atom, val):
    """When the guard says that the sum of some bits is odd (True) or even (False): (summed collection, odd)."""
    if not isinstance(atom, Term):
        return None
    if atom.op == "not":
        return parity(atom.args[0], not val)
    if atom.op == "eq":
        a, b = atom.args
        if is_num(b) and not is_num(a):
            a, b = b, a
        if a in (0, 1, True, False) and is_bits_parity(b) is not None:
            return is_bits_parity(b), (val if a else not val)
    if atom.op == "truthy" and is_bits_parity(atom.args[0]) is not None:
        return is_bits_parity(atom.args[0]), val
    return None


def is_bits_parity(t):
    """The collection whose parity a term computes."""
    if not isinstance(t, Term):
        return None
    if t.op in ("mod", "bitand") and len(t.args) == 2:
        a, b = t.args
        if t.op == "bitand" and a == 1:
            a, b = b, a
        if (t.op == "mod" and b == 2) or (t.op == "bitand" and b == 1):
            if isinstance(a, Term) and a.op == "sum":
                return a.args[0]
            if isinstance(a, Term) and a.op in ("bxorsum", "xorsum"):
                return a.args[0]
    if t.op in ("bxorsum", "xorsum"):
        return t.args[0]
    if t.op == "bxor" and len(t.args[0]) == 1:
        return is_bits_parity(next(iter(t.args[0])))
    if t.op == "not":
        return None
    return None


def attr(base, *names):
    t = base
    for n in names:
        t = Term("attr", t, n)
    return t


def is_attr(t, base, name):
    return isinstance(t, Term) and t.op == "attr" and t.args[0] == base and t.args[1] == name


def var(n):
    return Term("var", n)


# --- single-qubit Pauli group modulo phase, for products of Pauli Cliffords
PAULI_BITS = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}


def consistent(g1, g2):
    """Whether two guard lists can hold together as far as their common atoms tell."""
    d = dict(g1)
    return all(d.get(a, v) == v for a, v in g2)


def unresolved(t):
    """Whether a term contains values the interpretation could not track (widened or unknown)."""
    return any(isinstance(x, Term) and x.op in ("phi", "acc", "unknown", "unbound") for x in subterms(t))


def evalconst(rep, modname, expr, mats=False):
    """Abstract value of an expression over the constants of a module (read-only arrays by value when ``mats``)."""
    import ast

    from .interp import State

    ai = B.AI(rep.prog)
    if mats:
        ai.hooks["graphix.utils.lock"] = lambda interp, bound, node: next(iter(bound.values()))
    ai.st, ai.stack, ai.script, ai.pos, ai.taken, ai.pending = State(), [], [], 0, [], []
    v = ai.eval_static(rep.prog.mod(modname), ast.parse(expr, mode="eval").body, None)
    if v is None:
        raise AnalysisError(f"{expr} in {modname} is not a constant the analysis can evaluate")
    return v


def pauli_cliffords(rep):
    """Enumeration member of each Pauli gate in the Clifford group."""
    return {evalconst(rep, "graphix.clifford", f"Clifford.{n}"): n for n in "IXYZ"}


def concrete_methods(rep, base, name):
    """Implementations of a method in a class and its subclasses."""
    b = rep.prog.cls(base)
    out = []
    for c in [b, *b.subclasses()]:
        m = c.methods.get(name)
        if m is not None and not m.is_abstract and m not in out:
            out.append(m)
    return out


def called(t):
    """(short callee name, arguments) of a term which is the result of a call, else (None, {})."""
    if isinstance(t, Term):
        if t.op == "call":
            return str(t.args[0]).rsplit(".", 1)[-1], dict(t.args[1])
        if t.op == "mcall":
            a = {}
            if len(t.args) > 2 and all(isinstance(x, tuple) and len(x) == 2 for x in (t.args[2] if isinstance(t.args[2], tuple) else (0,))):
                a = dict(t.args[2])
            else:
                a = {str(i): v for i, v in enumerate(t.args[2:])}
            return t.args[1], {"obj": t.args[0], **a}
    return None, {}


def mentions_call(t, name):
    return any(called(x)[0] == name for x in subterms(t))


def is_named_attr(t, name):
    return isinstance(t, Term) and t.op == "attr" and t.args[1] == name


def plain(t):
    """Strip the copies which keep the elements and their order."""
    while isinstance(t, Term):
        if t.op in ("lst", "iter", "tuple") and len(t.args) == 1:
            t = t.args[0]
        elif t.op == "list" and len(t.args) == 1 and isinstance(t.args[0], Term) and t.args[0].op == "splat":
            t = t.args[0].args[0]
        elif comp_single(t) is not None and comp_single(t)[1] == comp_single(t)[3] and not comp_single(t)[2]:
            t = comp_single(t)[0]
        else:
            break
    return t


def named(t, name):
    """Whether a term is the attribute or the result of the property of that name."""
    t = plain(t)
    return is_named_attr(t, name) or called(t)[0] == name


def tri(cond, *terms):
    """True when the condition holds; otherwise False, or None when a term involved is out of reach of the analysis."""
    if cond:
        return True
    return None if any(unresolved(t) for t in terms) else False


def lock_hook(interp, bound, node):
    return next(iter(bound.values()))


def apply(rep, func, mats=False, opaque=None, **args):
    """Abstract result of a function on known arguments; all feasible paths must return the same value."""
    if isinstance(func, str):
        func = rep.prog.func(func)
    rep.analysed(func)
    ai = B.AI(rep.prog, opaque=opaque)
    if mats:
        ai.hooks["graphix.utils.lock"] = lock_hook
    ps = ai.explore(func, args)
    vals = {p.frozen if p.kind == "return" else ("raise", p.value) for p in ps}
    if len(vals) != 1:
        raise AnalysisError(f"{func.qual} has {len(vals)} outcomes on known arguments")
    return next(iter(vals))


def method(rep, cls, name):
    m = rep.prog.cls(cls).find_method(name)
    if m is None:
        raise AnalysisError(f"anchor vanished: {cls}.{name}")
    return m


def fields(t):
    """Fields of an abstract instance."""
    if isinstance(t, EnumVal):
        raise AnalysisError(f"{show(t)} is an enumeration member, not an instance")
    if isinstance(t, Term) and t.op == "new":
        return dict(t.args[1])
    raise AnalysisError(f"not a known instance: {show(t)[:200]}")


def seq(t):
    """Items of a sequence whose length is known."""
    if isinstance(t, (tuple, list)):
        return list(t)
    if isinstance(t, Term) and t.op == "list" and not any(isinstance(x, Term) and x.op == "splat" for x in t.args):
        return list(t.args)
    raise AnalysisError(f"not a known sequence: {show(t)[:200]}")


def dict_items(t):
    """Items of a mapping whose keys are known."""
    if isinstance(t, dict):
        return dict(t)
    if isinstance(t, Term) and t.op == "dict" and not (len(t.args) > 1 and t.args[1]):
        return dict(t.args[0])
    raise AnalysisError(f"not a known mapping: {show(t)[:200]}")


def lam(rep, modname, expr, *params):
    """Function of the given parameters computing an expression in the scope of a module."""
    import ast

    from .program import Func as _F

    m = rep.prog.mod(modname)
    a = ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, [])
    node = ast.fix_missing_locations(ast.Lambda(args=a, body=ast.parse(expr, mode="eval").body))
    return _F("<lambda>", m.name, node, m, None)


def outcomes(rep, modname, expr, mats=True, opaque=None, rec=2, models=False, hooks=None, region=None, arrays=False, setup=None, **args):
    """Paths of an expression in the scope of a module, some names standing for the given values."""
    ai = B.AI(rep.prog, opaque=opaque)
    ai.max_rec = rec
    ai.models = models
    if mats:
        ai.hooks["graphix.utils.lock"] = lock_hook
    if arrays:
        rep.prog.np_models()
        ai.arrays = True
        ai.hooks.update(_arrays.hooks(ai))
        if mats:
            ai.hooks["graphix.utils.lock"] = _arrays.lock_hook
    ai.hooks.update(hooks or {})
    ai.region = region or {}
    if models:
        ai.max_depth = 30
    if setup:
        setup(ai)
    return ai.explore(lam(rep, modname, expr, *args), args)


def fold(rep, modname, expr, mats=True, opaque=None, pick=None, rec=2, models=False, **args):
    """Abstract value of an expression in the scope of a module, some names standing for the given values; one outcome (or the one `pick`ed)."""
    ai = B.AI(rep.prog, opaque=opaque)
    ai.max_rec = rec
    ai.models = models
    if mats:
        ai.hooks["graphix.utils.lock"] = lock_hook
    ps = ai.explore(lam(rep, modname, expr, *args), args)
    vals = {p.frozen if p.kind == "return" else ("raise", p.value) for p in ps if pick is None or pick(p)}
    if len(vals) != 1:
        raise AnalysisError(f"{expr} has {len(vals)} outcomes")
    return next(iter(vals))


# --- patterns and their meaning
def clifford_of(rep):
    """Matrix of each Clifford gate, by the gate's own property (checked by K01)."""
    cache = {}

    def get(c):
        if c not in cache:
            cache[c] = mat.matrix(fold(rep, "graphix.clifford", "c.matrix", c=c))
        return cache[c]

    return get


def patterns(rep, modname, expr, extra="", pick=None, hooks=None, rec=8, **kw):
    """[(guards, commands, inputs, outputs, extra)] of an expression that gives a pattern."""
    out = []
    full = f"(lambda p_: (list(p_), p_.input_nodes, p_.output_nodes{', ' + extra if extra else ''}))({expr})"
    for p in outcomes(rep, modname, full, rec=rec, models=True, hooks=hooks, **kw):
        if pick is not None and not pick(p):
            continue
        if p.kind != "return":
            raise Refused(p)
        r = seq(p.frozen)
        out.append((p.guards, seq(r[0]), Br.items(r[1]), Br.items(r[2]), r[3:]))
    return out


class Refused(AnalysisError):
    """The code raises on what it should accept."""

    def __init__(self, p):
        super().__init__(f"raises {show(p.value)[:150]} when {show_guards(p.guards)[:150]}")
        self.path = p
        # a raise statement of the code which nothing unknown leads to
        self.at = p.raised if p.kind == "raise" and not p.guards else None


def maps(rep, cmds, ins, outs, cl, limit=5):
    """(outcomes, map, weight, results) of every branch of a pattern."""
    for b in Br.branches(Br.measured(cmds), limit):
        yield (b, *Br.run(cmds, ins, outs, b, cl))


def same_map(rep, cmds, ins, outs, cl, want, limit=5):
    """Why a pattern does not apply the same map in every branch (None if it does)."""
    first = None
    for b, m, w, _ in maps(rep, cmds, ins, outs, cl, limit):
        if not mat.proportional(m, want):
            return f"another map is applied when the outcomes are {b}"
        n = Br.norm(m)
        if first is None:
            first = (n, w)
        elif mat.mul(n, first[1]) != mat.mul(first[0], w):
            return f"the outcomes {b} do not have the same probability as the others"
    return None


def brief_cmds(cmds):
    return "; ".join(brief_cmd(c) for c in cmds)


def brief_cmd(c):
    d = Br.flds(c)
    return f"{Br.kind(c)}({', '.join(show(v) for v in d.values())})"


NAMES = {
    "Pattern": "graphix.pattern", "N": "graphix.command", "E": "graphix.command", "M": "graphix.command", "X": "graphix.command", "Z": "graphix.command", "C": "graphix.command",
    "S": "graphix.command", "T": "graphix.command", "Clifford": "graphix.clifford", "Measurement": "graphix.measurements", "BlochMeasurement": "graphix.measurements",
    "PauliMeasurement": "graphix.measurements", "Plane": "graphix.fundamentals", "Axis": "graphix.fundamentals", "Sign": "graphix.fundamentals", "BasicStates": "graphix.states",
    "PlanarState": "graphix.states", "StandardizedPattern": "graphix.optimization", "OpenGraph": "graphix.opengraph", "Circuit": "graphix.transpiler",
    "XZCorrections": "graphix.flow.core", "CausalFlow": "graphix.flow.core", "GFlow": "graphix.flow.core", "PauliFlow": "graphix.flow.core",
}


def scope(rep, *names):
    """Classes under the names the expressions of the rules use."""
    return {n: rep.prog.cls(f"{NAMES[n]}.{n}") for n in (names or NAMES)}


def same_branches(a, b, cl, limit=5, out=None):
    """Why two patterns (commands, inputs, outputs) differ in some outcome branch (None if they do not). `out` maps the outcomes of the first to those of the second."""
    try:
        na, nb = Br.measured(a[0]), Br.measured(b[0])
        if out is None and set(na) != set(nb):
            return f"the measured nodes become {sorted(map(show, nb))} instead of {sorted(map(show, na))}"
        if a[1] != b[1]:
            return f"the inputs become {b[1]} instead of {a[1]}"
        for x in Br.branches(na, limit):
            y = out(x) if out is not None else x
            m1, w1, r1 = Br.run(*a, x, cl)
            m2, w2, r2 = Br.run(*b, y, cl)
            if not mat.proportional(m1, m2):
                return f"another map is applied when the outcomes are {x}"
            if mat.mul(Br.norm(m1), w2) != mat.mul(Br.norm(m2), w1):
                return f"the outcomes {x} have another probability"
    except Br.Missing as e:
        return f"the pattern cannot run: {e}"
    return None
