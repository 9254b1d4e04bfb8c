"""S05: measurements follow the Born rule, and every operation of a dense backend acts on the qubit of its node."""

import random
from fractions import Fraction
from itertools import permutations, product

from rules import s02
from sa import dense as D
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the dense backends over symbolic amplitudes, on operations and short histories over few nodes"
RULE = (
    "Every operation of the dense backends is interpreted on a state of symbolic amplitudes whose qubits carry arbitrary node labels, with the branch forced or drawn by each branch selector. "
    "Measuring must leave the normalised part of the state selected by the projector of the outcome that is returned, on the qubit of that node, and drop that node alone from the index; the random selector must compare the number it draws with the Born probability of outcome 0; "
    "other operations must give the amplitudes of their definition; histories of several operations must agree with the same operations on a reference state; NodeIndex is compared with a list."
)
ASSUMPTIONS = ("exact arithmetic", "states of at most three or four qubits", "amplitudes that need not be normalised, the tests for that being ignored")
SV, DM = "graphix.sim.statevec", "graphix.sim.density_matrix"
PLANES = {"XY": ("x", "y"), "YZ": ("z", "y"), "XZ": ("z", "x")}
LABELS = (7, 3, 11, 5)
ANGLE = Term("var", "alpha", typ=("prim", "float"))
X, Z = ((0, 1), (1, 0)), ((1, 0), (0, -1))
Y = ((0, D.pmul(D.IMAG, -1)), (D.IMAG, 0))
ONE = ((1, 0), (0, 1))
GATES = {"x": X, "y": Y, "z": Z}


def plus(a, b, s=1):
    return tuple(tuple(D.total([x, D.pmul(y, s) if y != 0 else 0]) for x, y in zip(p, q, strict=True)) for p, q in zip(a, b, strict=True))


def times(a, c):
    return tuple(tuple(D.product_of(x, c) for x in r) for r in a)


class Ref:
    """A state over nodes, on which operations are done by their definition; the phase left by a measurement is not fixed, so there may be several."""

    def __init__(self, nodes, psis, density):
        self.nodes, self.psis, self.density = list(nodes), psis, density

    @property
    def n(self):
        return len(self.nodes)

    def at(self, *nodes):
        return tuple(self.nodes.index(v) for v in nodes)

    def gate(self, op, *nodes):
        qs = self.at(*nodes)
        self.psis = [D.sandwich(op, s, qs, self.n) if self.density else D.apply(op, s, qs, self.n) for s in self.psis]

    def add(self, nodes, data):
        if self.density:
            self.psis = [s02.kron(s, [[D.product_of(x, D.conj(y)) for y in data] for x in data]) for s in self.psis]
        else:
            self.psis = [D.tensor(s, data) for s in self.psis]
        self.nodes += nodes

    def probability(self, op, node):
        """Of outcome 0, up to the norm of the state."""
        (q,) = self.at(node)
        s = self.psis[0]
        if self.density:
            return D.product_of(D.trace(D.left(op, s, (q,), self.n)), D.pinv(D.trace(s)))
        return D.inner(s, D.apply(op, s, (q,), self.n))

    def measure(self, op, node):
        (q,) = self.at(node)
        out = []
        for s in self.psis:
            if self.density:
                r = D.ptrace(D.sandwich(op, s, (q,), self.n), (q,), self.n)
                out.append([D.scaled(row, D.pinv(D.trace(r))) for row in r])
            else:
                phi = D.apply(op, s, (q,), self.n)
                out += [D.unit(v) for x in (0, 1) for v in [D.part(phi, q, x, self.n)] if not zero(v)]
        self.psis = out
        self.nodes.remove(node)

    def order(self, nodes):
        pm = self.at(*nodes)
        out = []
        for s in self.psis:
            if self.density:
                w = [D.permuted([s[i][j] for i in range(2**self.n)], pm, self.n) for j in range(2**self.n)]
                out.append([D.permuted([w[j][i] for j in range(2**self.n)], pm, self.n) for i in range(2**self.n)])
            else:
                out.append(D.permuted(s, pm, self.n))
        self.psis = out
        self.nodes = list(nodes)


def run(rep):
    top = 4 if rep.tier == "thorough" else 3
    cs = {n: rep.prog.cls(q) for n, q in {
        "Statevector": SV + ".Statevector", "StatevectorBackend": SV + ".StatevectorBackend", "DensityMatrixBackend": DM + ".DensityMatrixBackend", "DensityMatrix": DM + ".DensityMatrix",
        "Measurement": "graphix.measurements.Measurement", "Clifford": "graphix.clifford.Clifford", "NodeIndex": "graphix.sim.base_backend.NodeIndex", "BasicStates": "graphix.states.BasicStates",
        "FixedBranchSelector": "graphix.branch_selector.FixedBranchSelector", "ConstBranchSelector": "graphix.branch_selector.ConstBranchSelector", "RandomBranchSelector": "graphix.branch_selector.RandomBranchSelector",
        "cX": "graphix.command.X", "cZ": "graphix.command.Z", "ApplyNoise": "graphix.noise_models.noise_model.ApplyNoise", "Two": "graphix.noise_models.depolarising.TwoQubitDepolarisingNoise", "One": "graphix.noise_models.depolarising.DepolarisingNoise",
    }.items()}
    RNG = Term("var", "rng", typ=("ext", "numpy.random.Generator"))
    cos, sin = (rep_angle(rep, f) for f in ("cos", "sin"))
    half = D.psqrt(Fraction(1, 2))
    angles = {"ang": (cos, sin), "0.25": (half, half), "0.75": (D.pmul(half, -1), half), "1.5": (0, -1)}
    base = rep.prog.cls("graphix.sim.base_backend.DenseStateBackend")
    where = {}

    def loc(cls, name):
        m = where.get((cls, name))
        if m is None:
            m = where[cls, name] = method(rep, cls, name)
            rep.analysed(m)
        return m.loc()

    def axis_op(v, r):
        """(I + (-1)^r v.sigma) / 2 for v given by its components on named axes."""
        m = ONE
        for a, c in v.items():
            m = plus(m, times(GATES[a], D.pmul(c, -1 if r else 1)))
        return times(m, Fraction(1, 2))

    def measurement(plane, angle):
        c, s = angles[angle]
        a, b = PLANES[plane]
        return f"Measurement.{plane}({angle})", {a: c, b: s}

    def start(density, nodes, selector, a):
        if density:
            return f"(lambda b: (setattr(b.state, 'rho', np.array(a, dtype=np.complex128)), b.node_index.extend({nodes!r}), b)[2])(DensityMatrixBackend(branch_selector={selector}))"
        return f"(lambda b: (b.node_index.extend({nodes!r}), b)[1])(StatevectorBackend(state=Statevector(a), branch_selector={selector}))"

    def explore_(density, nodes, selector, steps, extra=None, hooks=None, lookup=None):
        n = len(nodes)
        a = D.matrix("a", 2**n) if density else D.amps("a", 2**n)
        look = "b.state.rho.tolist()" if density else "b.state.psi.tolist()"
        expr = f"(lambda b: (({', '.join(steps)},), {look}, b.state.nqubit, b.nqubit, list(b.node_index), [b.node_index.index(v) for v in b.node_index]))({start(density, tuple(nodes), selector, a)})"
        ps = outcomes(rep, DM, expr, rec=8, models=True, arrays=True, hooks=hooks, a=a, ang=ANGLE, rng=RNG, **{**cs, **(extra or {})})
        return a, [p for p in ps if not refused(p)]

    def judge(p, ref, outcome=None):
        if p.kind != "return":
            return f"raises {p.value[0]}: {show(p.value[1])[:100]}"
        _, psi, n, m, nodes, places = result(p)
        if list(nodes) != ref.nodes:
            return f"the nodes are {show(nodes)} instead of {ref.nodes}"
        if n != ref.n or m != ref.n:
            return f"the state has {show(n)} qubits, and the backend {show(m)}, for {ref.n} nodes"
        if list(places) != list(range(ref.n)):
            return f"the nodes {show(nodes)} are found at the places {show(places)}"
        if zero(psi) or any(D.same(psi, w) for w in ref.psis):
            return None
        return f"the state is {show(psi)[:150]} instead of {show(ref.psis[0])[:150]}"

    def one(job):
        """One history with known outcomes: (rule, key, method, density, nodes, selector, steps, reference, value of the first step)."""
        rule, key, at, density, nodes, selector, steps, want, value, extra, hooks = job
        at = loc(*at)
        key = f"{'density matrix' if density else 'state vector'}, {key}"
        with rep.guard(rule, key):
            a, ps = explore_(density, nodes, selector, steps, extra, hooks)
            if not ps:
                raise AnalysisError("no outcome")
            ref = Ref(nodes, [a], density)
            want(ref)
            bad = [w for p in ps if (w := judge(p, ref))]
            if value is not None and not bad:
                bad = [f"the value is {show(v)} instead of {value}" for p in ps for v in [result(p)[0][0]] if not D.same(v, value)]
            if not bad and all(zero(result(p)[1]) for p in ps):
                raise AnalysisError("every path ends with a null state")
            rep.expect(not bad, rule, key, at, "; ".join(bad[:2]))

    jobs = []

    def J(rule, key, name, density, nodes, steps, want, selector="ConstBranchSelector(0)", value=None, extra=None, hooks=None, cls=None):
        jobs.append((one, (rule, key, (cls or base.qual, name), density, nodes, selector, steps, want, value, extra, hooks)))

    def kraus(interp, bound, node):
        return interp.call_func(lam(rep, "graphix.channels", "KrausChannel([KrausData(1, np.array(kk, dtype=np.complex128))])", "kk"), [D.matrix("k", 4)], {})

    two = {"graphix.noise_models.depolarising.TwoQubitDepolarisingNoise.to_krauschannel": kraus}
    for outs in permutations(LABELS[:3]):
        J("operations", f"output nodes {outs} of {LABELS[:3]}", "finalize", True, LABELS[:3], [f"b.finalize({list(outs)})"], lambda ref, outs=outs: ref.order(outs))
    for density in (False, True):
        for n in range(1, top + 1 - density):
            for nodes in {LABELS[:n], tuple(reversed(LABELS[:n]))}:
                for i, v in enumerate(nodes):
                    here = f"node {v} of {nodes}"
                    for plane, angle in [(p, x) for p in PLANES for x in (angles if n < 3 else ("ang",))]:
                        src, vec = measurement(plane, angle)
                        for r in (0, 1):
                            # forced outcomes, by the selectors in turn
                            sel = [f"FixedBranchSelector({{{v}: {r}}}, ConstBranchSelector({1 - r}))", f"ConstBranchSelector({r})", f"FixedBranchSelector({{99: {1 - r}}}, ConstBranchSelector({r}))"][(i + r + len(angle)) % 3]
                            J("measure", f"outcome {r} of {src} on {here}, {sel}", "measure", density, nodes, [f"b.measure({v}, {src})"], lambda ref, vec=vec, r=r, v=v: ref.measure(axis_op(vec, r), v), selector=sel, value=r)
                    for ax, sg in product("XYZ", (1, -1)) if n == 2 else ():
                        for r in (0, 1):
                            J("measure", f"outcome {r} of {'-' if sg < 0 else ''}{ax} on {here}", "measure", density, nodes, [f"b.measure({v}, {'-' if sg < 0 else ''}Measurement.{ax})"], lambda ref, ax=ax, sg=sg, r=r, v=v: ref.measure(axis_op({ax.lower(): sg}, r), v), selector=f"ConstBranchSelector({r})", value=r)
                    for ax, g in (("X", X), ("Z", Z)):
                        J("operations", f"{ax} on {here}", "correct_byproduct", density, nodes, [f"b.correct_byproduct(c{ax}({v}, {{1}}))"], lambda ref, g=g, v=v: ref.gate(g, v))
                    for c, g in CLIFFORDS.items() if n < 3 else (("S", CLIFFORDS["S"]),):
                        J("operations", f"Clifford {c} on {here}", "apply_clifford", density, nodes, [f"b.apply_clifford({v}, Clifford.{c})"], lambda ref, g=g, v=v: ref.gate(g, v))
                    if density:
                        def depol(ref, v=v):
                            ref.psis = [[[D.total([D.pmul(s[i][j], Fraction(1, 4)), *[D.pmul(D.sandwich(g, s, ref.at(v), ref.n)[i][j], Fraction(1, 4)) for g in GATES.values()]]) for j in range(len(s))] for i in range(len(s))] for s in ref.psis]

                        J("operations", f"depolarising on {here}", "apply_noise", density, nodes, [f"b.apply_noise(ApplyNoise(One(0.75), [{v}]))"], depol)
                for v, w in permutations(nodes, 2):
                    J("operations", f"CZ of {v} and {w} in {nodes}", "entangle_nodes", density, nodes, [f"b.entangle_nodes(({v}, {w}))"], lambda ref, v=v, w=w: ref.gate(D.CZ, v, w))
                    if density:
                        J("operations", f"noise on {v} and {w} in {nodes}", "apply_noise", density, nodes, [f"b.apply_noise(ApplyNoise(Two(0.5), [{v}, {w}]))"], lambda ref, v=v, w=w: ref.gate(D.matrix("k", 4), v, w), hooks=two)
                for outs in permutations(nodes):
                    J("operations", f"output nodes {outs} of {nodes}", "finalize", density, nodes, [f"b.finalize({list(outs)})"], lambda ref, outs=outs: ref.order(outs))
                for new, data, val in (([20], "BasicStates.ONE", (0, 1)), ([21, 20], "[BasicStates.ZERO, BasicStates.PLUS]", D.tensor((1, 0), (half, half))), ((20, 21), "BasicStates.PLUS", D.tensor((half, half), (half, half))), ([], "BasicStates.PLUS", (1,))):
                    if n + len(new) <= 3 + (not density):
                        J("operations", f"{list(new)} in {data} after {nodes}", "add_nodes", density, nodes, [f"b.add_nodes({new}, {data})"], lambda ref, new=new, val=val: ref.add(list(new), val))

    # the random selector
    def rand(job):
        density, nodes, v, plane, angle = job
        at = loc("graphix.branch_selector.RandomBranchSelector", "measure")
        loc(base.qual, "measure")
        src, vec = measurement(plane, angle)
        key = f"{'density matrix' if density else 'state vector'}, {src} on node {v} of {nodes}"
        with rep.guard("Born rule", key):
            a, ps = explore_(density, nodes, "RandomBranchSelector()", [f"b.measure({v}, {src}, rng=rng)"])
            # an imaginary part of the probability, from amplitudes that are those of no density matrix, is refused
            ps = [p for p in ps if not (p.kind == "raise" and p.value[0] in ("AssertionError", "RuntimeError"))]
            ref = Ref(nodes, [a], density)
            p0, p1 = (s02.real(ref.probability(axis_op(vec, r), v)) for r in (0, 1))
            bad, seen = [], set()
            for p in ps:
                if p.kind != "return":
                    bad.append(f"raises {p.value[0]}: {show(p.value[1])[:100]}")
                    continue
                r = result(p)[0][0]
                if r not in (0, 1):
                    bad.append(f"the outcome is {show(r)[:80]}")
                    continue
                seen.add(int(r))
                draws = [(g, val) for g, val in p.guards if drawn(g)]
                if len(draws) != 1 or draws[0][0].op != "lt0":
                    bad.append(f"outcome {r} is returned under {[(show(g)[:100], w) for g, w in draws]}")
                    continue
                g, val = draws[0]
                d = next(t for t in subterms(g) if isinstance(t, Term) and called(t)[0] == "random" and mentions(t, RNG))
                c, up = threshold(g.args[0], d)
                if c is None:
                    bad.append(f"the draw is compared through {show(g.args[0])[:150]}")
                    continue
                below = val if up else not val
                # below the threshold with the probability it is, above with the complement
                chance = {0: (p0, D.total([1, D.product_of(p1, -1)])), 1: (p1, D.total([1, D.product_of(p0, -1)]))}[int(r) if below else 1 - int(r)]
                if not any(D.same(c, x) for x in chance):
                    bad.append(f"outcome {r} is returned when the draw is {'below' if below else 'above'} {show(c)[:100]}, where the probability of outcome 0 is {show(p0)[:100]}")
                ref2 = Ref(nodes, [a], density)
                ref2.measure(axis_op(vec, int(r)), v)
                if w := judge(p, ref2):
                    bad.append(f"outcome {r}: {w}")
            bad += [f"outcome {r} is never returned" for r in (0, 1) if r not in seen]
            rep.expect(not bad, "Born rule", key, at, "; ".join(bad[:2]))

    for density in (False, True):
        for n in (1, 2, 3)[: 3 - density]:
            nodes = LABELS[:n]
            for v in nodes:
                for plane, angle in [(p, x) for p in PLANES for x in angles if n < 3 or x == "ang"]:
                    if angle != "1.5":
                        jobs.append((rand, (density, nodes, v, plane, angle)))

    def uniform(job):
        at = loc("graphix.branch_selector.RandomBranchSelector", "measure")
        with rep.guard("equal chances", str(job)):
            ps = outcomes(rep, "graphix.branch_selector", "RandomBranchSelector(pr_calc=False).measure(4, f, rng)", rec=8, models=True, f=Term("var", "f"), rng=RNG)
            bad = []
            for p in ps:
                if p.kind != "return":
                    bad.append(f"raises {p.value[0]}")
                elif any(mentions(t, Term("var", "f")) for t in [p.frozen, *[g for g, _ in p.guards]]) or any(e.kind == "call" and "f" == show(e.name) for e in p.events):
                    bad.append("the probability of outcome 0 is used")
                else:
                    ts = [t for x in [p.frozen, *[g for g, _ in p.guards]] for t in subterms(x) if isinstance(t, Term) and mentions(t, RNG) and called(t)[0] in ("choice", "integers", "random", "randint")]
                    if not ts:
                        bad.append("the outcome does not depend on a draw")
                    for t in ts:
                        name, args = called(t)[0], called(t)
                        if name == "random":
                            cs_ = [threshold(g.args[0], t)[0] for g, _ in p.guards if mentions(g, t) and g.op == "lt0"]
                            if not cs_ or any(c is None or not D.same(c, Fraction(1, 2)) for c in cs_):
                                bad.append(f"the draw is compared with {[show(c) for c in cs_]}")
                        elif equal_chances(name, t) is not True:
                            bad.append(f"the outcome is drawn by {show(t)[:100]}")
            rep.expect(not bad and ps, "equal chances", "pr_calc=False", at, "; ".join(bad[:2]))

    jobs.append((uniform, "pr_calc=False"))

    def missing(_):
        at = loc("graphix.branch_selector.FixedBranchSelector", "measure")
        with rep.guard("missing outcome", "no default"):
            ps = outcomes(rep, "graphix.branch_selector", "FixedBranchSelector({3: 0}).measure(4, f, rng)", rec=8, models=True, f=Term("var", "f"), rng=RNG)
            rep.expect(bool(ps) and all(p.kind == "raise" and p.value[0] == "ValueError" for p in ps), "missing outcome", "no default", at, "an outcome that is not given is accepted")

    jobs.append((missing, None))

    # the index of nodes, against a list
    def index(ops):
        at = loc("graphix.sim.base_backend.NodeIndex", "extend")
        for m in ("remove", "swap", "clear", "index", "__getitem__"):
            loc("graphix.sim.base_backend.NodeIndex", m)
        ref = []
        for o in ops:
            exec({"extend": "ref += o[1]", "remove": "ref.remove(o[1])", "swap": "ref[o[1]], ref[o[2]] = ref[o[2]], ref[o[1]]", "clear": "ref.clear()"}[o[0]], {"ref": ref, "o": o})
        key = "; ".join(f"{o[0]}({', '.join(map(str, o[1:]))})" for o in ops)
        with rep.guard("node index", key):
            steps = ", ".join(f"i.{o[0]}({', '.join('iter(' + str(x) + ')' if isinstance(x, list) else str(x) for x in o[1:])})" for o in ops)
            ps = outcomes(rep, "graphix.sim.base_backend", f"(lambda i: ({steps}, (list(i), len(i), [i.index(v) for v in i], [i[k] for k in range(len(i))]))[-1])(NodeIndex())", rec=8, models=True)
            bad = []
            for p in ps:
                got = result(p) if p.kind == "return" else p.value[0]
                want = [ref, len(ref), list(range(len(ref))), ref]
                if not D.same(got, want):
                    bad.append(f"is {show(got)[:100]} instead of {want}")
            rep.expect(not bad and ps, "node index", key, at, "; ".join(bad[:2]))

    rnd = random.Random(5)
    for k in range(60 if top == 3 else 200):
        ref, ops, fresh = [], [], iter(rnd.sample(range(30), 30))
        for _ in range(rnd.randint(1, 6)):
            kind = rnd.choice(["extend", "remove", "swap", "remove", "swap", "clear" if k % 5 == 0 else "extend"] if ref else ["extend"])
            if kind == "extend":
                o = ("extend", [next(fresh) for _ in range(rnd.randint(0, 4))])
                ref += o[1]
            elif kind == "remove":
                o = ("remove", rnd.choice(ref))
                ref.remove(o[1])
            elif kind == "swap":
                i, j = rnd.randrange(len(ref)), rnd.randrange(len(ref))
                o = ("swap", i, j)
                ref[i], ref[j] = ref[j], ref[i]
            else:
                o = ("clear",)
                ref = []
            ops.append(o)
        jobs.append((index, ops))

    # histories
    for k in range(24 if top == 3 else 120):
        jobs.append(history(rnd, k, J, one, measurement, axis_op, half, jobs))
    rep.share([j for j in jobs if j], lambda j: j[0](j[1]))
    rep.floor_total(300)


def history(rnd, k, J, one, measurement, axis_op, half, jobs):
    density = k % 4 == 3
    nodes = rnd.sample(range(40), 2 - (density and k % 8 == 3))
    live, fresh = list(nodes), iter(rnd.sample(range(40, 80), 20))
    steps, todo, given = [], [], {}
    measured = 0
    for _ in range(rnd.randint(4, 7)):
        kind = rnd.choice("NEEXZCMO")
        if kind == "N" and len(live) < 3:
            v = next(fresh)
            steps.append(f"b.add_nodes([{v}], BasicStates.{rnd.choice(['PLUS'])})")
            todo.append(lambda ref, v=v: ref.add([v], (half, half)))
            live.append(v)
        elif kind == "E" and len(live) > 1:
            e = rnd.sample(live, 2)
            steps.append(f"b.entangle_nodes({tuple(e)})")
            todo.append(lambda ref, e=e: ref.gate(D.CZ, *e))
        elif kind in "XZ" and live:
            v = rnd.choice(live)
            steps.append(f"b.correct_byproduct(c{kind}({v}, {{1}}))")
            todo.append(lambda ref, v=v, g=X if kind == "X" else Z: ref.gate(g, v))
        elif kind == "C" and live:
            v, c = rnd.choice(live), rnd.choice(list(CLIFFORDS))
            steps.append(f"b.apply_clifford({v}, Clifford.{c})")
            todo.append(lambda ref, v=v, c=c: ref.gate(CLIFFORDS[c], v))
        elif kind == "M" and len(live) > 1 and measured < 1:
            v, r = rnd.choice(live), rnd.randint(0, 1)
            src, vec = measurement(rnd.choice(list(PLANES)), "0.25")
            given[v] = r
            steps.append(f"b.measure({v}, {src})")
            todo.append(lambda ref, v=v, vec=vec, r=r: ref.measure(axis_op(vec, r), v))
            live.remove(v)
            measured += 1
        elif kind == "O":
            outs = rnd.sample(live, len(live))
            steps.append(f"b.finalize({outs})")
            todo.append(lambda ref, outs=outs: ref.order(outs))
    if not steps:
        return None

    def want(ref):
        for t in todo:
            t(ref)

    J("history", f"{k}: nodes {nodes}, " + "; ".join(steps), "measure", density, nodes, steps, want, selector=f"FixedBranchSelector({given})")
    return None


CLIFFORDS = {"H": times(((1, 1), (1, -1)), D.psqrt(Fraction(1, 2))), "S": ((1, 0), (0, D.IMAG)), "SDG": ((1, 0), (0, D.pmul(D.IMAG, -1))), "Y": Y}


def rep_angle(rep, f):
    return fold(rep, "graphix.sim.base_backend", f"math.{f}(ang * math.pi)", ang=ANGLE)


def result(p):
    return s02.result(p)


def zero(v):
    return all(map(zero, v)) if isinstance(v, (list, tuple)) else v == 0


def refused(p):
    """Whether the path is one where the symbolic amplitudes were found not to be those of a state."""
    return p.kind == "raise" and any("close(" in show(a)[:60] and v is False for a, v in p.guards) and p.value[0] == "ValueError" or p.kind == "raise" and p.value[0] == "RuntimeError" and "0-norm" in show(p.value[1])


def mentions(t, x):
    return any(s == x for s in subterms(t))


def drawn(g):
    return any(isinstance(t, Term) and called(t)[0] == "random" for t in subterms(g))


def threshold(e, d):
    """(c, up): the expression, linear in d, is negative exactly when d is below c (up) or above c (not up)."""
    for sign in (1, -1):
        rest = D.total([e, D.product_of(d, -sign)])
        if not mentions(rest, d):
            # sign * d + rest < 0
            return D.product_of(rest, -sign), sign == 1
    return None, None


def equal_chances(name, t):
    """Whether a draw gives 0 and 1 with equal chances."""
    pos, named = arguments(t)
    if name == "choice":
        return not named and len(pos) == 1 and (pos[0] == 2 or sorted(map(str, s02.items(pos[0]))) == ["0", "1"])
    if name == "integers":
        return (pos in ([2], [0, 2]) or pos == [0, 1] and named.get("endpoint") is True) and set(named) <= {"endpoint", "dtype"} and (pos == [0, 1] or not named.get("endpoint"))
    return None


def arguments(t):
    d = {k: v for k, v in called(t)[1].items() if k != "obj"}
    return [d[k] for k in sorted((k for k in d if k.isdigit()), key=int)], {k: v for k, v in d.items() if not k.isdigit()}
