"""G05: transpiling circuits to patterns keeps the unitary, the qubits and the classical outputs."""

from itertools import permutations, product as cartesian

from rules.g01 import ALPHA, ANGLED, KINDS, T, brief, gate_of, instr, placements, product
from sa import branch as Br
from sa import mat
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the transpiler with symbolic angles; the resulting commands are given their exact meaning (linear map of every outcome branch over Q(e^{iπ/4})[e^{iπα}])"
RULE = (
    "The transpiler is interpreted abstractly on circuits of known shape with symbolic angles: every instruction kind in every placement, ordered pairs of gates sharing qubits, SWAPs before and after gates and measurements. "
    "The commands it gives are read as the linear map of each outcome branch, which must be the circuit's own map up to a scalar (of the same modulus in every branch), from the inputs in order to the outputs in order, with the classical outputs in the order of the measurements."
)
ASSUMPTIONS = ("the model of networkx graphs in sa/models", "circuits of at most three instructions (beyond the decompositions of each)")
BETA = Term("var", "beta", typ=("prim", "float"))
PAIR = ("instruction.H(0)", "instruction.RX(1, beta)", "instruction.RZ(0, alpha)", "instruction.CZ((0, 1))", "instruction.CNOT(target=0, control=1)", "instruction.SWAP((0, 1))", "instruction.J(1, alpha)")


def terms(rep, srcs):
    return seq(fold(rep, T, f"[{', '.join(srcs)}]", alpha=ALPHA, beta=BETA))


def unitary(rep, srcs, n):
    m = mat.eye(1 << n)
    for t in terms(rep, srcs):
        k, qs, g = gate_of(t)
        m = mat.mm(mat.embed(g, qs, n), m)
    return m


def run(rep):
    cl = clifford_of(rep)
    f = method(rep, T + ".Circuit", "transpile")
    g = method(rep, T + ".Circuit", "transpile_to_causalflow")
    rep.analysed(f), rep.analysed(g)

    def same(rule, key, srcs, n, swaps):
        with rep.guard(rule, key):
            for gd, cmds, ins, outs, _ in patterns(rep, T, f"Circuit({n}, [{', '.join(srcs)}]).transpile(transpile_swaps={swaps}).pattern", alpha=ALPHA, beta=BETA):
                try:
                    if ins != tuple(range(n)):
                        msg = f"the inputs are the nodes {ins}"
                    else:
                        msg = same_map(rep, cmds, ins, outs, cl, unitary(rep, srcs, n))
                except Br.Missing as x:
                    msg = f"the pattern cannot run: {x}"
                rep.expect(msg is None, rule, key, g.loc(), f"[{', '.join(srcs)}] becomes {brief_cmds(cmds)[:400]} -> {outs}: {msg}")

    jobs = []
    for swaps in (True, False):
        for kind in KINDS:
            n = len(KINDS[kind][1])
            pls = list(permutations(range(max(n, 2)), n))
            if kind == "CCX":
                pls = [(2, 0, 1)] if swaps else []
            for qs in pls:
                jobs.append(("gate", f"{kind}{qs} swaps={swaps}", [instr(kind, qs)], max(n, 2), swaps))
        for a, b in cartesian(PAIR, repeat=2):
            if not swaps and "SWAP" not in a + b:
                continue
            jobs.append(("pair", f"{a.split('.')[1]}; {b.split('.')[1]} swaps={swaps}", [a, b], 2, swaps))
    for srcs in (
        ["instruction.SWAP((0, 1))", "instruction.CZ((1, 2))", "instruction.SWAP((1, 2))", "instruction.RZ(0, alpha)"],
        ["instruction.SWAP((0, 2))", "instruction.SWAP((0, 1))", "instruction.J(1, alpha)"],
        ["instruction.CZ((0, 1))", "instruction.CZ((1, 2))", "instruction.CZ((1, 0))", "instruction.J(1, alpha)", "instruction.CZ((0, 1))"],
        ["instruction.J(0, alpha)", "instruction.CZ((0, 1))", "instruction.J(1, beta)", "instruction.CZ((1, 0))", "instruction.J(0, beta)"],
    ):
        for swaps in (True, False):
            jobs.append(("sequence", f"{'; '.join(s.split('.')[1] for s in srcs)} swaps={swaps}", srcs, 3, swaps))
    rep.share(jobs, lambda x: same(*x))
    measurements(rep, f, g, cl)
    swaps_result(rep)
    rep.floor("gate", 40)
    rep.floor("pair", 40)
    rep.floor("measurements", 20)
    rep.floor_total(150)


MEAS = [
    ["instruction.M(0, Axis.{})"],
    ["instruction.H(0)", "instruction.CNOT(target=1, control=0)", "instruction.M(0, Axis.{})", "instruction.RZ(1, alpha)"],
    ["instruction.J(1, alpha)", "instruction.M(1, Axis.{})", "instruction.CZ((0, 2))", "instruction.M(0, Axis.Z)"],
    ["instruction.SWAP((0, 1))", "instruction.M(0, Axis.{})", "instruction.J(1, alpha)"],
    ["instruction.SWAP((0, 2))", "instruction.J(2, alpha)", "instruction.M(2, Axis.{})", "instruction.SWAP((0, 1))", "instruction.M(0, Axis.Z)"],
    ["instruction.CZ((0, 2))", "instruction.M(2, Axis.{})", "instruction.SWAP((0, 1))", "instruction.M(0, Axis.X)", "instruction.M(1, Axis.Y)"],
    ["instruction.M(2, Axis.{})", "instruction.SWAP((0, 1))"],
]


def instrument(rep, srcs, n, bits):
    """Map of a circuit with measurements, for the bits they give in order; remaining qubits in order."""
    t = Br.Tensor(tuple(range(n)))
    bits = list(bits)
    gone = []
    for x in terms(rep, srcs):
        k, qs, g = gate_of(x)
        if k == "M":
            t.project(qs[0], Br.projector(mat.scale(mat.GATES[g.name], Br.TWO), bits.pop(0)))
            gone.append(qs[0])
        elif len(qs) == 1:
            t.single(qs[0], g)
        elif k == "CZ":
            t.cz(*qs)
        elif k == "CNOT":
            t.single(qs[1], mat.GATES["H"])
            t.cz(*qs)
            t.single(qs[1], mat.GATES["H"])
        elif k == "SWAP":
            i, j = (t.legs.index(q) for q in qs)
            t.legs[i], t.legs[j] = t.legs[j], t.legs[i]
        else:
            raise AnalysisError(f"{k} in a circuit with measurements")
    return t.matrix(tuple(range(n)), tuple(q for q in range(n) if q not in gone))


def measurements(rep, f, g, cl):
    n = 3
    for template in MEAS:
        for axis in "XYZ":
            srcs = [s.format(axis) for s in template]
            axes = [s.split("Axis.")[1][0] for s in srcs if "Axis." in s]
            for swaps in (True, False):
                key = f"{'; '.join(s.split('.', 1)[1] for s in srcs)} swaps={swaps}"
                with rep.guard("measurements", key):
                    full = f"(lambda r: (list(r.pattern), r.pattern.input_nodes, r.pattern.output_nodes, r.classical_outputs))(Circuit({n}, [{', '.join(srcs)}]).transpile(transpile_swaps={swaps}))"
                    for p in outcomes(rep, T, full, rec=8, models=True, alpha=ALPHA):
                        if p.kind != "return":
                            raise Refused(p)
                        c, i, o, cls = seq(p.frozen)
                        cmds, ins, outs, bits = seq(c), Br.items(i), Br.items(o), Br.items(cls)
                        msg = None
                        if ins != tuple(range(n)) or len(bits) != len(axes) or len(set(bits)) != len(bits):
                            msg = f"inputs {ins}, classical outputs {bits}"
                        else:
                            try:
                                for b, m, w, res in maps(rep, cmds, ins, outs, cl):
                                    want = instrument(rep, srcs, n, [res[x] for x in bits])
                                    if not mat.proportional(m, want):
                                        msg = f"another map is applied when the outcomes are {b}"
                                        break
                            except Br.Missing as x:
                                msg = f"the pattern cannot run: {x}"
                            except KeyError as x:
                                msg = f"the classical output {x} is not measured"
                        rep.expect(msg is None, "measurements", key, g.loc(), f"becomes {brief_cmds(cmds)[:400]} -> {outs}, bits {bits}: {msg}")
    for swaps in (True, False):
        for bad in ("instruction.H(0)", "instruction.CZ((1, 0))", "instruction.M(0, Axis.Z)", "instruction.SWAP((0, 1))"):
            with rep.guard("measurements", f"{bad} after measurement"):
                ps = outcomes(rep, T, f"c.transpile(transpile_swaps={swaps})", rec=8, models=True,
                              c=circuit_of(rep, f"instruction.M(0, Axis.X), {bad}"))
                rep.expect(all(p.kind == "raise" for p in ps), "measurements", f"{bad.split('.', 1)[1]} after M(0) swaps={swaps}", g.loc(), "a gate on a measured qubit is transpiled")


def circuit_of(rep, srcs):
    """A circuit with instructions nobody checked."""
    c = fold(rep, T, "Circuit(2)")
    ins = fold(rep, T, f"[{srcs}]")
    d = dict(c.args[1])
    d["instruction"] = ins
    return Term("new", c.args[0], tuple((k, d[k]) for k, _ in c.args[1]), *c.args[2:])


SWAPS = [
    ["instruction.SWAP((0, 1))"],
    ["instruction.SWAP((0, 1))", "instruction.SWAP((1, 2))", "instruction.RZ(0, alpha)"],
    ["instruction.H(0)", "instruction.SWAP((2, 0))", "instruction.CNOT(target=0, control=1)", "instruction.SWAP((1, 0))", "instruction.RX(1, alpha)"],
    ["instruction.SWAP((0, 1))", "instruction.CZ((0, 2))", "instruction.SWAP((0, 1))"],
    ["instruction.SWAP((0, 2))", "instruction.CCX(target=0, controls=(1, 2))", "instruction.RZZ(target=0, control=2, angle=alpha)"],
    ["instruction.SWAP((0, 1))", "instruction.M(0, Axis.X)", "instruction.SWAP((1, 2))"],
    ["instruction.SWAP((0, 2))", "instruction.M(2, Axis.Y)", "instruction.H(0)", "instruction.M(0, Axis.Z)"],
    ["instruction.CZ((0, 1))", "instruction.M(1, Axis.Z)", "instruction.SWAP((0, 2))", "instruction.J(2, alpha)"],
]


def swaps_result(rep):
    """SWAP elimination on its own: instruction by instruction, each on the qubit its own qubit then stands for."""
    f = rep.prog.func(T + ".transpile_swaps")
    rep.analysed(f)
    for copy in (True, False):
        for srcs in SWAPS:
            key = f"{'; '.join(s.split('.', 1)[1] for s in srcs)} copy={copy}"
            with rep.guard("swaps", key):
                expr = f"(lambda c: (lambda r: (r.circuit.instruction, r.outputs, r.circuit.width, r.circuit.active_qubits, c.instruction, c.active_qubits, r.circuit is c))(transpile_swaps(c, copy={copy})))(Circuit(3, [{', '.join(srcs)}]))"
                new, outs, width, active, old, oldactive, same = seq(fold(rep, T, expr, rec=8, alpha=ALPHA))
                where = {q: q for q in range(3)}
                want, bits, measured = [], 0, {}
                for t in terms(rep, srcs):
                    d = fields(t)
                    k = t.args[0].rsplit(".", 1)[-1]
                    if k == "SWAP":
                        u, v = seq(d["targets"])
                        where[u], where[v] = where[v], where[u]
                        if u in measured or v in measured:
                            raise AnalysisError("bad rule")
                        continue
                    mp = {k2: moved(k2, v2, where) for k2, v2 in d.items()}
                    want.append((k, tuple(sorted((a, show(b)) for a, b in mp.items()))))
                    if k == "M":
                        measured[d["target"]] = bits
                        bits += 1
                got = [(t.args[0].rsplit(".", 1)[-1], tuple(sorted((a, show(b)) for a, b in fields(t).items()))) for t in seq(new)]
                rep.expect(got == want, "swaps", key, f.loc(), f"gives {', '.join(map(brief, seq(new)))}")
                o = [(fields(x)["kind"].name, fields(x)["index"]) for x in seq(outs)]
                w = [("Bit", measured[q]) if q in measured else ("Qubit", where[q]) for q in range(3)]
                rep.expect(o == w, "swaps", key + " outputs", f.loc(), f"the outputs are {o} instead of {w}")
                rep.expect(width == 3, "swaps", key + " width", f.loc(), f"the width is {show(width)}")
                live = {where[q] for q in range(3) if q not in measured}
                rep.expect(set(Br.items(active)) == live, "swaps", key + " active", f.loc(), f"the active qubits of the result are {show(active)} instead of {live}")
                orig = terms(rep, srcs)
                if copy:
                    rep.expect(seq(old) == orig and set(Br.items(oldactive)) == set(range(3)) - set(measured) and same is False, "swaps", key + " original", f.loc(), "the original circuit is changed")
                else:
                    rep.expect(same is True, "swaps", key + " in place", f.loc(), "the circuit itself is not returned")
                lst = fold(rep, T, f"(lambda r: (r.extract_outputs(OutputKind.Bit), r.extract_outputs(OutputKind.Qubit), r.extract_output_node_indices(), r.swap_output_nodes(nodes), r.swap_classical_outputs(bits)))(transpile_swaps(Circuit(3, [{', '.join(srcs)}]), copy=True))",
                           rec=8, alpha=ALPHA, nodes=tuple(range(10, 10 + len(live))), bits=tuple(range(20, 20 + bits)))
                eb, eq, idx, nodes, cb = map(Br.items, seq(lst))
                ql = [where[q] for q in range(3) if q not in measured]
                rank = tuple(sorted(ql).index(x) for x in ql)
                ok = eb == tuple(measured[q] for q in range(3) if q in measured) and eq == tuple(ql) and idx == rank and nodes == tuple(10 + r for r in rank) and cb == tuple(range(20, 20 + bits))
                rep.expect(ok, "swaps", key + " reading the outputs", f.loc(), f"bits {eb}, qubits {eq}, node indices {idx}, nodes {nodes}, classical outputs {cb}")
    for bad in ("instruction.H(0)", "instruction.SWAP((0, 1))", "instruction.SWAP((1, 0))", "instruction.M(0, Axis.Z)", "instruction.CNOT(target=1, control=0)"):
        with rep.guard("swaps", f"{bad} after measurement"):
            ps = outcomes(rep, T, "transpile_swaps(c, copy=True)", rec=8, c=circuit_of(rep, f"instruction.M(0, Axis.X), {bad}"))
            rep.expect(all(p.kind == "raise" for p in ps), "swaps", f"{bad.split('.', 1)[1]} after M(0)", f.loc(), "a gate on a measured qubit is accepted")


def moved(name, v, where):
    if name in ("target", "control"):
        return where[v]
    if name in ("targets", "controls"):
        return Term("list", *[where[q] for q in seq(v)]) if isinstance(v, Term) else tuple(where[q] for q in v)
    return v
