"""P01: only runnable patterns are run, standardised or analysed."""

import random
from itertools import product

from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the runnability check and of the operations that depend on it, over command sequences of every kind with one fault or none, against the definition"
RULE = (
    "check_runnability is interpreted on enumerated and drawn sequences of commands; it must accept exactly those in which nodes are prepared once, entangled, corrected or measured only between preparation (or being inputs) and measurement, and domains name nodes measured before, and otherwise raise RunnabilityError with the first command at fault, a node at fault in it and the reason. "
    "Simulation, standardisation, signal shifting and what is based on the standard form are interpreted on sequences that are not runnable (standardisation would hide the fault) and must raise that error, for each way the pattern can be at fault; they must accept the others."
)
ASSUMPTIONS = ("sequences of at most eight commands on at most four nodes", "entanglement of a node with itself and user-defined commands are left out")
P = "graphix.pattern"


def text(s):
    return "{" + ", ".join(map(str, sorted(s))) + "}" if s else "set()"


def render(c):
    k, n, *d = c
    if k == "E":
        return f"E({n})"
    if k == "M":
        return f"M({n}, Measurement.{('XY(0.25)', 'XZ(0.5)', 'YZ(1.25)', 'X')[n % 4]}, {text(d[0])}, {text(d[1])})"
    if k == "C":
        return f"C({n}, Clifford.H)"
    if k == "T":
        return "T()"
    return f"{k}({n}{', ' + text(d[0]) if d else ''})"


def faults(ins, cmds):
    """(index of the first command at fault, admissible (node, reason) pairs) or None."""
    active, measured = set(ins), set()
    for i, (k, n, *d) in enumerate(cmds):
        out = []

        def used(v):
            if v in measured:
                out.append((v, "AlreadyMeasured"))
            elif v not in active:
                out.append((v, "NotYetActive"))

        if k == "N":
            if n in active:
                out.append((n, "AlreadyActive"))
            if n in measured:
                out.append((n, "AlreadyMeasured"))
            active.add(n)
        elif k == "E":
            used(n[0])
            used(n[1])
        elif k == "M":
            used(n)
            for dom in d:
                if n in dom:
                    out.append((n, "DomainSelfLoop"))
                out += [(v, "NotYetMeasured") for v in dom if v not in measured and v != n]
            active.discard(n)
            measured.add(n)
        elif k in "XZ":
            used(n)
            out += [(v, "NotYetMeasured") for v in d[0] if v not in measured]
        elif k == "C":
            used(n)
        if out:
            return i, out
    return None


def alphabet(nodes):
    subs = [set()] + [{v} for v in nodes]
    for v in nodes:
        yield ("N", v)
        yield ("C", v)
        for s in subs:
            yield ("X", v, s)
            yield ("Z", v, s)
            yield ("M", v, s, set())
            if s:
                yield ("M", v, set(), s)
    for u, v in product(nodes, repeat=2):
        if u != v:
            yield ("E", (u, v))


def good(r, ins, nodes, n):
    """A runnable sequence."""
    cmds, active, done = [], list(ins), []
    while len(cmds) < n:
        k = r.choice("NNEEMMXZCT")
        fresh = [v for v in nodes if v not in active and v not in done]
        dom = lambda: {v for v in done if r.random() < 0.5}
        if k == "N" and fresh:
            v = r.choice(fresh)
            active.append(v)
            cmds.append(("N", v))
        elif k == "E" and len(active) > 1:
            cmds.append(("E", tuple(r.sample(active, 2))))
        elif k == "M" and active:
            v = r.choice(active)
            cmds.append(("M", v, dom(), dom()))
            active.remove(v)
            done.append(v)
        elif k in "XZ" and active:
            cmds.append((k, r.choice(active), dom()))
        elif k == "C" and active:
            cmds.append(("C", r.choice(active)))
        elif k == "T" or not (fresh or active):
            cmds.append(("T", None))
    return cmds


def run(rep):
    thorough = rep.tier == "thorough"
    r = random.Random(1)
    names = scope(rep)
    names["RunnabilityErrorReason"] = rep.prog.cls(P + ".RunnabilityErrorReason")
    check = method(rep, P + ".Pattern", "check_runnability")
    rep.analysed(check)

    def source(ins, cmds):
        return f"Pattern(input_nodes={list(ins)}, cmds=[{', '.join(map(render, cmds))}])"

    def cases():
        letters = list(alphabet((0, 1)))
        seqs = [(ins, [c]) for ins in ((), (0,), (0, 1)) for c in letters]
        pairs = [(ins, [a, b]) for ins in ((), (1,), (0, 1)) for a in letters for b in letters]
        # only those whose first command is right tell something new
        pairs = [p for p in pairs if faults(p[0], p[1][:1]) is None]
        seqs += pairs if thorough else r.sample(pairs, 250)
        for _ in range(900 if thorough else 160):
            nodes = r.choice(((0, 1, 2), (7, 2, 5), (0, 3, 1, 2)))
            ins = r.sample(nodes, r.randint(0, 2))
            cmds = good(r, ins, nodes, r.randint(2, 6))
            if r.random() < 0.75:
                big = list(alphabet(nodes))
                i = r.randrange(len(cmds) + 1)
                cmds[i: i + r.randint(0, 1)] = [r.choice(big)]
            seqs.append((ins, cmds))
        return seqs

    bad = []
    for ins, cmds in cases():
        src = source(ins, cmds)
        want = faults(ins, cmds)
        if want is not None:
            bad.append((ins, cmds))
        with rep.guard("check", src):
            ps = outcomes(rep, P, f"{src}.check_runnability()", rec=8, models=True, **names)
            if len(ps) != 1:
                raise AnalysisError(f"{len(ps)} outcomes")
            p = ps[0]
            if want is None:
                rep.expect(p.kind == "return", "check", src, check.loc(), f"a runnable sequence raises {p.value}")
                continue
            i, pairs = want
            if p.kind != "raise" or p.value[0] != "RunnabilityError":
                rep.bad("check", src, check.loc(), f"{pairs[0][1]} of node {pairs[0][0]} in {render(cmds[i])} {'is not reported' if p.kind == 'return' else 'raises ' + p.value[0]}")
                continue
            args = p.value[1]
            if len(args) != 3:
                raise AnalysisError(f"RunnabilityError with {len(args)} arguments")
            cmd, node, reason = args
            cref = fold(rep, P, f"({source(ins, cmds)})[{i}]", rec=8, models=True, **names)
            why = None
            if show(freeze(cmd)) != show(freeze(cref)):
                why = f"the command reported is {show(freeze(cmd))[:80]} instead of {render(cmds[i])}"
            elif (node, reason.name if isinstance(reason, EnumVal) else show(reason).rsplit(".", 1)[-1]) not in pairs:
                why = f"{show(freeze(reason))} of node {show(freeze(node))} is reported in {render(cmds[i])} instead of {pairs}"
            rep.expect(why is None, "check", src, check.loc(), why)

    ops = {
        "standardize": "o.standardize()", "shift_signals": "o.shift_signals()", "to_opengraph": "o.to_opengraph()", "to_xzcorrections": "o.to_xzcorrections()", "to_pauliflow": "o.to_pauliflow()", "to_gflow": "o.to_gflow()", "to_causalflow": "o.to_causalflow()",
        "perform_pauli_pushing": "o.perform_pauli_pushing()", "partial_order_layers": "o.partial_order_layers()", "max_degree": "o.max_degree()", "isolated_nodes": "o.isolated_nodes()", "simulate": "o.simulate()",
    }
    # one example of each kind of fault in each kind of command, whose standard form may be runnable
    kinds = {}
    for ins, cmds in bad:
        i, pairs = faults(ins, cmds)
        kinds.setdefault((cmds[i][0], pairs[0][1]), []).append((ins, cmds))
    kinds["hidden"] = [([], [("N", 0), ("E", (0, 1)), ("M", 0, set(), set()), ("N", 1)]), ([0], [("E", (0, 1)), ("N", 1), ("M", 0, set(), set())]), ([0, 1], [("X", 1, {0}), ("M", 0, set(), set())]), ([0], [("C", 1), ("N", 1), ("M", 0, set(), set())])]
    for op, expr in ops.items():
        m = method(rep, P + ".Pattern", op)
        rep.analysed(m)
        for k, cs in kinds.items():
            for ins, cmds in (cs if k == "hidden" else r.sample(cs, min(len(cs), 6 if thorough else 1))):
                src = source(ins, cmds)
                key = f"{op}: {src}"
                with rep.guard("refused", key):
                    ps = outcomes(rep, P, f"(lambda o: {expr})({src})", rec=8, models=True, arrays=True, **names)
                    wrong = next((p for p in ps if p.kind != "raise" or p.value[0] != "RunnabilityError"), None)
                    rep.expect(wrong is None, "refused", key, m.loc(), f"a pattern that is not runnable {'is accepted' if wrong is None or wrong.kind == 'return' else 'raises ' + str(wrong.value[0])}")
    rep.floor("check", 450)
    rep.floor("refused", 100)
