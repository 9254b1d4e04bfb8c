"""S06: everything random comes from the generator that was given."""

import ast

from sa.h import *
from sa.program import Class, Func
from sa.thread import OTHER, Thread

TECHNIQUE = "static analysis: interprocedural dataflow of the random generator through every function and call site"
RULE = (
    "A forward dataflow analysis of every function of the package tells which expressions are the generator it was given (through assignments, ensure_rng, helper functions, attributes, closures, partial applications); branches only taken without a generator are left out. "
    "At every call of a function that takes a generator, the given one must be passed; no generator or other source of randomness may be created or used where one was given, nor at all outside ensure_rng; ensure_rng must give back the generator it is given; and every method overriding one that takes a generator must take it."
)
ASSUMPTIONS = ("methods are told apart by name, arguments and type annotations",)
SOURCES = ("numpy.random.", "random.", "secrets.", "uuid.", "os.urandom", "time.", "torch.", "scipy.stats.")
SAMPLERS = {"rvs"}


def takes(f, a):
    return a.arg == "rng" or a.annotation is not None and "Generator" in {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(a.annotation) if isinstance(n, (ast.Name, ast.Attribute))} and f.name != "__iter__" and not ("collections" in f.module.source and "Iterator" in ast.unparse(a.annotation))


def run(rep):
    prog = rep.prog
    ensure = prog.func("graphix.rng.ensure_rng")
    th = Thread(prog, takes, keeps=(ensure.qual,)).run()

    for f in th.functions():
        ps = th.params(f)
        if ps:
            rep.analysed(f)

    def scope(f):
        """Whether a generator is at hand in a function (or one around it)."""
        while f is not None:
            if th.params(f):
                return True
            f = f.parent
        return False

    seen = {}
    for s in th.calls:
        d = s.dotted
        text = " ".join(ast.unparse(s.node).split())[:120]
        what = f"{s.where}: {text}"
        if d is not None and (d.startswith(SOURCES) and not d.endswith((".Generator", ".sleep"))):
            sampler = d.rsplit(".", 1)[-1] in SAMPLERS
            given = any(v != OTHER for v in (*s.vals, *s.named.values()))
            if sampler or d.startswith("scipy.stats."):
                rep.expect(given or not sampler, "samplers", what, s.loc, f"{d} does not draw from the generator that was given")
            else:
                rep.bad("sources", what, s.loc, f"{d} is used as a source of randomness, although a generator may have been given" if scope(s.func) else f"{d} is a source of randomness that cannot be given")
            continue
        if isinstance(s.fn, ast.Attribute) and s.fn.attr in SAMPLERS:
            given = any(v != OTHER for v in (*s.vals, *s.named.values()))
            rep.expect(given, "samplers", what, s.loc, "does not draw from the generator that was given")
            continue
        verdicts = []
        for c, skip in s.cands:
            names = []
            if isinstance(c, Func):
                names = [a.arg for a in c.params if takes(c, a)]
            else:
                names = [n for n, a in c.ann.items() if "Generator" in ast.unparse(a.annotation) and n == "rng"]
            verdicts.append([(c, n, th.passed(s, c, skip, n)) for n in names])
        if not any(verdicts):
            continue
        bad = [x for v in verdicts for x in v if x[2] == OTHER or x[2] is None]
        ok = [v for v in verdicts if all(x[2] not in (OTHER, None) for x in v)]
        if bad and ok and s.func is not None:
            # several methods of that name: some of them are not given the generator, if it is one of them that is called
            if any(not v for v in verdicts):
                continue
        key = f"{what} [{s.node.lineno - (s.func.node.lineno if s.func else 0)}]"
        c, n, v = bad[0] if bad else (None, None, None)
        rep.expect(not bad, "passed on", key, s.loc, f"{getattr(c, 'qual', None)} is not given the random generator ({'nothing' if v is None else 'something else'} is passed for {n})" if bad else "")

    # ensure_rng gives back its argument
    rs = th.returns.get(ensure, [])
    rep.expect(bool(rs) and all(v != OTHER for _, v in rs), "ensure_rng", "ensure_rng", ensure.loc(), "does not give back the generator it is given")

    # methods overriding one that takes a generator take it
    for c in prog.classes.values():
        if not c.module.name.startswith("graphix"):
            continue
        for name, f in c.methods.items():
            if isinstance(f.node, ast.Lambda):
                continue
            for k in c.mro()[1:]:
                g = k.methods.get(name) if isinstance(k, Class) else None
                if g is None or isinstance(g.node, ast.Lambda):
                    continue
                want = [a.arg for a in g.params if takes(g, a)]
                if want and name not in ("__init__", "__new__", "__post_init__"):
                    have = {a.arg for a in f.params} | ({"*"} if f.node.args.kwarg else set())
                    rep.expect(set(want) <= have or "*" in have, "overrides", f"{f.qual} overrides {g.qual}", f.loc(), f"does not take {want}")

    rep.floor("passed on", 40)
    rep.floor("overrides", 10)
