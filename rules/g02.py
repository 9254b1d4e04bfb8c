"""G02: the circuit simulator applies each gate's own operator to its own qubits."""



from rules.g01 import ALPHA, ANGLED, KINDS, T, brief, instr, placements
from sa import mat
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation with exact constant folding; unitaries over Q(e^{iπ/4}) with symbolic angles"
RULE = (
    "Circuit.simulate is interpreted abstractly on circuits with one instruction of every kind, for every placement of its qubits and a symbolic angle, with an opaque backend: the state operation it asks for must be "
    "the exact matrix of the gate (compared as an operator on the register), on the state's indices of the gate's own qubits. Measurements, their order and the initial state are decided on the same traces; the operators of Ops are folded exactly."
)
ASSUMPTIONS = ("the backend's state operations do what their contracts say (see S02)",)
DENSE = "graphix.sim.base_backend.DenseStateBackend"
OPS = {"I": "I", "X": "X", "Y": "Y", "Z": "Z", "S": "S", "SDG": "SDG", "H": "H", "CZ": "CZ", "CNOT": "CNOT", "SWAP": "SWAP", "CCX": "CCX"}


def opaque(g):
    return in_classes(g, ("DenseState", "NodeIndex", "DenseStateBackend"))


def traces(rep, expr):
    ai = B.AI(rep.prog, opaque=opaque)
    ai.hooks["graphix.utils.lock"] = lock_hook
    b = Term("var", "b", typ=("exact", rep.prog.cls(DENSE)))
    kw = {"b": b, "x": var("x"), "alpha": ALPHA, "rng": var("rng")}
    return ai.explore(lam(rep, T, expr, *kw), kw), b


class Raw(Exception):
    pass


def label(t, b):
    """Qubit whose index in the state a term is."""
    n, a = called(t)
    if is_num(t):
        raise Raw(f"a state operation is asked for on the number {show(t)} of a qubit instead of its index in the state (different once a qubit is measured)")
    if n != "index" or a.get("self", a.get("obj")) != attr(b, "node_index"):
        raise AnalysisError(f"a state operation is not on the index of a qubit: {show(t)[:200]}")
    (q,) = [v for k, v in a.items() if k not in ("self", "obj")]
    return q


def effects(p, b):
    """Effects on the backend in order: ("gate", matrix, qubits), ("measure", qubit, measurement, term), ("add", nodes, data)."""
    out = []
    for e, g, c in p.flat(("call", "mcall")):
        r, n = receiver(e), short(e)
        if r == attr(b, "state"):
            a = [v for k, v in e.args.items() if k not in ("obj", "self")]
            if n == "evolve":
                out.append(("gate", mat.matrix(a[0]), tuple(label(q, b) for q in seq(a[1]))))
            elif n == "evolve_single":
                out.append(("gate", mat.matrix(a[0]), (label(a[1], b),)))
            elif n in ("swap", "entangle"):
                out.append(("gate", mat.GATES["SWAP" if n == "swap" else "CZ"], tuple(label(q, b) for q in seq(a[0]))))
            elif n not in ("flatten", "copy"):
                raise AnalysisError(f"unknown state operation {n}")
        elif r == b:
            if n == "measure":
                out.append(("measure", arg(e, "node", 0), arg(e, "measurement", 1), arg(e, "rng", default=None), e))
            elif n == "add_nodes":
                out.append(("add", arg(e, "nodes", 0), arg(e, "data", 1, default=None)))
            elif n == "entangle_nodes":
                out.append(("gate", mat.GATES["CZ"], tuple(seq(arg(e, "edge", 0)))))
            elif n == "apply_single":
                out.append(("gate", mat.matrix(arg(e, "op", 1)), (arg(e, "node", 0),)))
            elif n not in ("nqubit",):
                raise AnalysisError(f"unknown backend operation {n}")
    return out


def run(rep):
    f = method(rep, T + ".Circuit", "simulate")
    rep.analysed(f)
    members = set(rep.prog.cls("graphix.instruction.InstructionKind").enum_members())
    for k in members - {*KINDS, "M"}:
        rep.und("gate", k, "instruction kind without a matrix in the rule")
    for kind in KINDS:
        want0 = mat.rotation(kind, ALPHA) if kind in ANGLED else mat.GATES[kind]
        for qs in placements(kind):
            key = f"{kind}{qs}"
            with rep.guard("gate", key):
                ps, b = traces(rep, f"Circuit(3, [{instr(kind, qs)}]).simulate(b, x, rng=rng)")
                want = mat.embed(want0, qs, 3)
                for p in ps:
                    if p.kind != "return":
                        rep.bad("gate", key, f.loc(), f"simulating {kind} raises {p.value}")
                        continue
                    m, ok = mat.eye(8), True
                    try:
                        es = effects(p, b)
                    except Raw as x:
                        rep.bad("gate", key, f.loc(), str(x))
                        continue
                    for e in es:
                        if e[0] == "gate":
                            m = mat.mm(mat.embed(e[1], e[2], 3), m)
                        elif e[0] == "measure":
                            ok = False
                    rep.expect(ok and mat.proportional(m, want), "gate", key, f.loc(), f"{kind} on {qs} is simulated by another operator or on other qubits")
    measurements(rep, f)
    initial(rep, f)
    operators(rep)
    rep.floor("gate", 50)
    rep.floor_total(90)


def measurements(rep, f):
    with rep.guard("measurement", "order"):
        ps, b = traces(rep, "Circuit(3, [instruction.H(2), instruction.M(2, Axis.X), instruction.S(0), instruction.M(0, Axis.Y), instruction.M(1, Axis.Z)]).simulate(b, x, rng=rng)")
        for p in ps:
            if p.kind != "return":
                rep.bad("measurement", "order", f.loc(), f"a circuit with measurements raises {p.value}")
                continue
            es = effects(p, b)
            order = [("gate", (2,)), ("measure", 2, "X"), ("gate", (0,)), ("measure", 0, "Y"), ("measure", 1, "Z")]
            got = []
            for e in es:
                if e[0] == "gate":
                    got.append(("gate", e[2]))
                elif e[0] == "measure":
                    d = fields(e[2])
                    got.append(("measure", e[1], d["axis"].name if d["sign"].name == "PLUS" else "-" + d["axis"].name))
                    rep.expect(e[3] == var("rng"), "measurement", f"rng {e[1]}", f.loc(), "the generator given to the simulation is not the one of the measurement")
            rep.expect(got == order, "measurement", "order", f.loc(), f"the effects are {got}, not those of the instructions in order")
            res = fields(p.frozen)
            ms = seq(res["classical_measures"])
            ok = len(ms) == 3 and all(called(t)[0] == "measure" and called(t)[1].get("node", called(t)[1].get("0")) == q for t, q in zip(ms, (2, 0, 1)))
            rep.expect(ok, "measurement", "results", f.loc(), f"the classical results are {show(tuple(ms))[:300]}, not the outcomes in order")
            rep.expect(res["statevec"] == attr(b, "state") if "statevec" in res else attr(b, "state") in res.values(), "measurement", "state", f.loc(), "the state returned is not the backend's")


def initial(rep, f):
    for key, call, data in (("default", "simulate(b)", "plus"), ("given", "simulate(b, x)", var("x"))):
        with rep.guard("initial state", key):
            ps, b = traces(rep, f"Circuit(3, [instruction.H(2)]).{call}")
            for p in ps:
                if any(g == Term("isnone", var("x")) and v for g, v in p.guards) and key == "given":
                    continue
                es = effects(p, b) if p.kind == "return" else []
                ok = bool(es) and es[0][0] == "add" and [e[0] for e in es].count("add") == 1 and seq(es[0][1]) == [0, 1, 2]
                if ok and data == "plus":
                    d = es[0][2]
                    ok = d is None or d == freeze(evalconst(rep, "graphix.states", "BasicStates.PLUS"))
                elif ok:
                    ok = es[0][2] == data
                rep.expect(ok, "initial state", key, f.loc(), "the qubits are not prepared first, once each, in the " + ("plus state" if data == "plus" else "given state"))


def operators(rep):
    """The operators of Ops."""
    loc = rep.prog.cls("graphix.ops.Ops").module.rel
    for n, g in OPS.items():
        with rep.guard("operator", n):
            rep.expect(mat.meq(mat.matrix(fold(rep, "graphix.ops", f"Ops.{n}")), mat.GATES[g]), "operator", n, loc, f"Ops.{n} is not the matrix of {g}")
    for n in ("rx", "ry", "rz", "rzz", "j"):
        f = method(rep, "graphix.ops.Ops", n)
        rep.analysed(f)
        with rep.guard("operator", n):
            ai = B.AI(rep.prog)
            ai.hooks["graphix.utils.lock"] = lock_hook
            for p in ai.explore(lam(rep, "graphix.ops", f"Ops.{n}(alpha)", "alpha"), {"alpha": ALPHA}):
                rep.expect(p.kind == "return" and mat.proportional(mat.matrix(p.frozen), mat.rotation(n.upper(), ALPHA)), "operator", n, f.loc(), f"Ops.{n} is not the rotation it is named for, at every angle")
    with rep.guard("operator", "tensor Paulis"):
        f = method(rep, "graphix.ops.Ops", "build_tensor_pauli_ops")
        rep.analysed(f)
        for k in (1, 2):
            got = [mat.matrix(m) for m in seq(fold(rep, "graphix.ops", f"Ops.build_tensor_pauli_ops({k})"))]
            want = [mat.GATES[a] for a in "IXYZ"]
            if k == 2:
                want = [mat.kron(a, b) for a in want for b in want]
            rep.expect(len(got) == len(want) and all(mat.meq(a, b) for a, b in zip(got, want)), "operator", f"tensor Paulis {k}", f.loc(), "the tensor products of Paulis are not listed in order")
