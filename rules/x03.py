"""X03: warnings point at the caller of the function that is asked to warn."""

import ast

from sa.h import *
from sa.program import Func
from sa.thread import OTHER, Thread

TECHNIQUE = "static analysis: interprocedural dataflow of the stack level through every function and call site, as the level received plus a number"
RULE = (
    "A forward dataflow analysis of every function that takes a stack level tells the values of its variables as the level received plus a known number. "
    "Every warning it issues, and every function taking a stack level it calls, must get the level received plus one (the frame of the function itself)."
)
ASSUMPTIONS = ("methods are told apart by name, arguments and type annotations", "decorators add no frame")


def run(rep):
    prog = rep.prog
    th = Thread(prog, lambda f, a: a.arg == "stacklevel", numeric=True).run()
    for f in th.functions():
        if any(a.arg == "stacklevel" for a in f.params):
            rep.analysed(f)
            d = dict(zip([a.arg for a in f.node.args.kwonlyargs], f.node.args.kw_defaults, strict=True)).get("stacklevel")
            pos = [a.arg for a in (*f.node.args.posonlyargs, *f.node.args.args)]
            if "stacklevel" in pos:
                i = pos.index("stacklevel") - (len(pos) - len(f.node.args.defaults))
                d = f.node.args.defaults[i] if i >= 0 else None
            if d is not None:
                rep.expect(th.const(d) == 1, "default", f.qual, f.loc(), f"the default stack level is {ast.unparse(d)}, so that a warning is not reported at the call")

    def scope(f):
        while f is not None:
            if th.params(f):
                return True
            f = f.parent
        return False

    for s in th.calls:
        if s.func is None or not scope(s.func):
            continue
        fine = {1, 1 + s.depth}
        text = " ".join(ast.unparse(s.node).split())[:120]
        what = f"{s.where}: {text} [{s.node.lineno - s.func.node.lineno}]"
        if s.dotted == "warnings.warn":
            v = s.named.get("stacklevel", s.vals[2] if len(s.vals) > 2 and not s.starred else None)
            rep.expect(v in fine, "warnings", what, s.loc, f"the warning gets {told(v)} instead of the stack level plus 1")
            continue
        verdicts = []
        for c, skip in s.cands:
            names = [a.arg for a in c.params if a.arg == "stacklevel"] if isinstance(c, Func) else []
            verdicts.append([(c, th.passed(s, c, skip, n)) for n in names])
        if not any(verdicts):
            continue
        bad = [x for v in verdicts for x in v if x[1] not in fine and x[1] != "?"]
        if bad and any(not v for v in verdicts):
            continue  # another method of that name, which takes no stack level
        rep.expect(not bad, "passed on", what, s.loc, f"{bad[0][0].qual} gets {told(bad[0][1])} instead of the stack level plus 1" if bad else "")
    rep.floor("warnings", 5)
    rep.floor("passed on", 36)
    rep.floor("default", 24)


def told(v):
    return "no stack level" if v is None else "something else" if v == OTHER else f"the stack level plus {v}"
