"""S04: the parallel kernels compute what the serial ones do, whatever the order of their iterations."""

import ast
from itertools import product

from rules import s02
from sa import arrays
from sa import dense as D
from sa.h import *

TECHNIQUE = "static analysis: effect analysis of the parallel loops (elements read and written by each iteration, reductions, private variables) over the interpretation of every operation with the parallel branches forced; exact comparison with the serial result"
RULE = (
    "The threshold from which the compiled kernels use parallel loops is replaced, so that the parallel branch is taken at every size, then the serial one. The iterations of a parallel loop are interpreted as tasks on their own: each starts from the variables as they were before the loop, a sum starts from zero and the parts are added up, and the elements each iteration reads and writes are recorded. "
    "No iteration may write an element that another one reads or writes, both branches must give the amplitudes of the definition, and every parallel loop of the package must have been reached with several iterations."
)
ASSUMPTIONS = ("numba runs the outermost parallel loop in parallel and the ones inside it serially, and recognises sums and products of a variable as reductions", "exact arithmetic: the order of a sum is not modelled", "at most four qubits, matrices of at most three rows")
SV, LA = "graphix.sim.statevec", "graphix._linalg"


def parallel_loops(rep):
    """(function, loop) of the outermost parallel loops of compiled functions."""
    out = []
    for f in rep.prog.funcs.values():
        if f.name == "<lambda>" or not (arrays.compiled(f) or {}).get("parallel"):
            continue
        rep.analysed(f)

        def find(n):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and rep.prog.resolve_expr(f.module, n.iter.func) == ("ext", "numba.prange"):
                out.append((f, n))
                return
            for c in ast.iter_child_nodes(n):
                find(c)

        for b in f.node.body:
            find(b)
    return out


def thresholds(rep, mods):
    """Constants a size is compared with, as nodes whose value can be set."""
    out = []

    cache = {}

    def known(m, name):
        r = rep.prog.resolve_name(m, name)
        if not r or r[0] in ("ext", "module", "class", "func"):
            return None
        if (m.name, name) not in cache:
            try:
                v = fold(rep, m.name, name)
            except AnalysisError:
                v = None
            cache[m.name, name] = v if isinstance(v, int) and not isinstance(v, bool) else None
        return cache[m.name, name]

    class T(ast.NodeTransformer):
        def __init__(self, m):
            self.m, self.inside = m, False

        def visit_Compare(self, n):
            old, self.inside = self.inside, all(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in n.ops)
            n = self.generic_visit(n)
            self.inside = old
            return n

        def visit_Name(self, n):
            if self.inside and (v := known(self.m, n.id)) is not None and v >= 4:
                c = ast.copy_location(ast.Constant(value=v), n)
                out.append(c)
                return c
            return n

        def visit_Constant(self, n):
            if self.inside and isinstance(n.value, int) and not isinstance(n.value, bool) and n.value >= 8:
                out.append(n)
            return n

    for m in mods:
        T(m).visit(m.tree)
    return out


def run(rep):
    loops = parallel_loops(rep)
    mods = list({f.module.name: f.module for f, _ in loops}.values())
    limits = thresholds(rep, mods)
    log, reached = [], {}

    def force(v):
        for c in limits:
            c.value = v

    def setup(ai):
        log.clear()
        ai.parallel = log

    def judge(key, at):
        """The parallel loops an operation went through."""
        n = 0
        for func, line, size, clash in log:
            if size < 2:
                continue
            n += 1
            reached[func, line] = True
            what = f"{func} line {line}: {key} [{n}]"
            f = rep.prog.func(func)
            rep.expect(not clash, "race", what, f"{f.module.path}:{line}" if hasattr(f.module, "path") else f.loc(), "; ".join(f"element {e} is written by iteration {i} and {how} by iteration {j}" for e, i, j, how in clash[:3]))
        log.clear()

    top = 4 if rep.tier == "thorough" else 3
    jobs = s02.jobs_of(rep, top=top, densities=False, setup=setup, after=judge)
    work = [(v, j) for j in jobs for v in (0, 40)]

    def one(w):
        force(w[0])
        fn, arg = w[1]
        fn((arg[0] + (", in parallel" if w[0] == 0 else ", serially"), *arg[1:]))

    mm = method(rep, f"{LA}.MatGF2", "mat_mul")
    rep.analysed(mm)

    def multiply(w):
        v, (a, b) = w
        force(v)
        key = f"mat_mul of {a} and {b}, {'in parallel' if v == 0 else 'serially'}"
        with rep.guard("mat_mul", key):
            ps = outcomes(rep, LA, "MatGF2(a).mat_mul(MatGF2(b)).tolist()", rec=8, models=True, arrays=True, setup=setup, a=a, b=b)
            judge(key, mm.loc())
            want = [[sum(a[i][k] * b[k][j] for k in range(len(b))) % 2 for j in range(len(b[0]))] for i in range(len(a))]
            rep.expect(len(ps) == 1 and ps[0].kind == "return" and D.same(s02.items(ps[0].frozen), want), "mat_mul", key, mm.loc(), f"is {show(ps[0].value)[:80]} instead of {want}")

    mats = []
    for m, l, n in product((1, 2, 3), repeat=3):
        full = [[1] * l for _ in range(m)], [[1] * n for _ in range(l)]
        mixed = [[(i * 2 + j) % 3 % 2 for j in range(l)] for i in range(m)], [[(i + j * j) % 3 % 2 for j in range(n)] for i in range(l)]
        mats += [full, mixed]
    mats = [tuple(tuple(tuple(r) for r in x) for x in p) for p in mats]
    # once here, to see which loops are reached
    for w in [(0, j) for j in jobs if j[1][3] == 3 and j[1][4] == 3 and j[1][1] in ("entangle", "evolve_single", "expectation_single", "project_qubit", "swap", "tensor", "permute", "add_nodes")]:
        one(w)
    for p in mats[-4:]:
        multiply((0, p))
    for f, n in loops:
        key = f"{f.qual}: loop {[x for g, x in loops if g is f].index(n) + 1}"
        if (f.qual, n.lineno) in reached:
            rep.ok("reached", key)
        else:
            rep.und("reached", key, "this parallel loop is never reached with several iterations")
    rep.share([(one, w) for w in work] + [(multiply, (v, p)) for p in mats for v in (0, 40)], lambda j: j[0](j[1]))
    rep.floor("race", 60)
    rep.floor("mat_mul", 80)
    rep.floor_total(300)
