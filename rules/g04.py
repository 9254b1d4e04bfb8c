"""G04: the circuit builder appends exactly the requested instruction, on qubits that can still be used."""

from itertools import product

from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation, exhaustive over the placements of the qubits among usable, measured and unknown ones"
RULE = (
    "Each builder method is folded on a circuit with usable, measured and unknown qubits, for every placement of its arguments among them, with a symbolic angle: "
    "it must raise exactly when a qubit is not usable or is named twice, and otherwise append exactly its own instruction, leaving the usable qubits (but the measured one) as they were."
)
ASSUMPTIONS = ("Python runs with assertions enabled, as the builder relies on them",)
T = "graphix.transpiler"
# method -> (parameters, kind, fields of the instruction appended for the parameters)
METHODS = {
    "cnot": ("control target", "CNOT", {"control": "control", "target": "target"}),
    "swap": ("qubit1 qubit2", "SWAP", {"targets": ("qubit1", "qubit2")}),
    "cz": ("qubit1 qubit2", "CZ", {"targets": ("qubit1", "qubit2")}),
    "rzz": ("control target", "RZZ", {"control": "control", "target": "target", "angle": "alpha"}),
    "ccx": ("control1 control2 target", "CCX", {"controls": ("control1", "control2"), "target": "target"}),
    **{k: ("qubit", k.upper(), {"target": "qubit"}) for k in "hsxyzi"},
    **{k: ("qubit", k.upper(), {"target": "qubit", "angle": "alpha"}) for k in ("rx", "ry", "rz", "j")},
}
BASE = "Circuit(4, [instruction.H(0), instruction.M(1, Axis.Z)])"
USABLE = {0, 2, 3}
QUBITS = (-1, 0, 1, 2, 3, 4)
A = var("alpha")


def outcome(rep, expr):
    """Outcome of building on the base circuit: exception name, or (instruction list, usable qubits, width)."""
    ai = B.AI(rep.prog)
    ps = ai.explore(lam(rep, T, f"(lambda c: ({expr}, (c.instruction, c.active_qubits, c.width))[1])({BASE})", "alpha"), {"alpha": A})
    outs = {("raise", p.value) if p.kind == "raise" else ("return", p.frozen) for p in ps}
    if len(outs) != 1:
        raise AnalysisError(f"{expr} has {len(outs)} outcomes")
    k, v = next(iter(outs))
    if k == "raise":
        return k
    ins, act, w = seq(v)
    return seq(ins), act, w


def run(rep):
    base = outcome(rep, "None")
    sets = {frozenset(s): fold(rep, T, "{" + ", ".join(map(str, s)) + "}") for s in ((0, 2, 3), (2, 3), (0, 3), (0, 2))}
    rep.expect(base[1] == sets[frozenset({0, 2, 3})] and base[2] == 4, "measured", "base", method(rep, T + ".Circuit", "m").loc(), "after measuring qubit 1 of 4, the usable qubits are not 0, 2 and 3")
    for name, (params, kind, want) in METHODS.items():
        f = method(rep, T + ".Circuit", name)
        rep.analysed(f)
        ps = params.split()
        grid = list(product(QUBITS, repeat=len(ps)))
        if len(ps) == 3:
            grid = [q for q in grid if -1 not in q and 4 not in q]
        for qs in grid:
            key = f"{name}{qs}"
            with rep.guard("builder", key):
                env = dict(zip(ps, qs))
                call = f"c.{name}({', '.join(f'{p}={q}' for p, q in env.items())}{', angle=alpha' if 'angle' in want else ''})"
                build(rep, f, key, call, kind, want, env, base)
    f = method(rep, T + ".Circuit", "m")
    rep.analysed(f)
    for ax in "XYZ":
        for q in QUBITS:
            with rep.guard("builder", f"m {ax} {q}"):
                out = outcome(rep, f"c.m({q}, Axis.{ax})")
                if q not in USABLE:
                    rep.expect(out == "raise", "builder", f"m {ax} {q}", f.loc(), f"measuring qubit {q}, which cannot be used, is accepted")
                    continue
                ok = out != "raise" and len(out[0]) == len(base[0]) + 1 and out[0][:-1] == base[0]
                if ok:
                    d = fields(out[0][-1])
                    ok = out[0][-1].args[0].endswith(".M") and d["target"] == q and d["axis"].name == ax and out[1] == sets[frozenset(USABLE - {q})]
                rep.expect(ok, "builder", f"m {ax} {q}", f.loc(), "does not append the measurement, or the measured qubit stays usable")
    f = method(rep, T + ".Circuit", "r")
    rep.analysed(f)
    for ax in "XYZ":
        with rep.guard("builder", f"r {ax}"):
            build(rep, f, f"r {ax}", f"c.r(2, Axis.{ax}, alpha)", "R" + ax, {"target": "q", "angle": "alpha"}, {"q": 2}, base)
    f = method(rep, T + ".Circuit", "add")
    rep.analysed(f)
    extra(rep, f, base, sets)
    rep.floor_total(250)


def build(rep, f, key, call, kind, want, env, base):
    out = outcome(rep, call)
    qs = list(env.values())
    if not set(qs) <= USABLE or len(set(qs)) != len(qs):
        rep.expect(out == "raise", "builder", key, f.loc(), f"accepted on {qs}: a qubit cannot be used or is named twice")
        return
    if out == "raise":
        rep.bad("builder", key, f.loc(), f"refused on the usable qubits {qs}")
        return
    rep.expect(out[0][:-1] == base[0] and appended(out[0][-1], kind, want, env), "builder", key, f.loc(), f"appends {show(tuple(out[0][len(base[0]):]))[:300]}")
    rep.expect(out[1] == base[1] and out[2] == base[2], "builder", key + " bookkeeping", f.loc(), "changes the width or the usable qubits")


def appended(t, kind, want, env):
    if not (isinstance(t, Term) and t.op == "new" and t.args[0].endswith(f"instruction.{kind}")):
        return False
    d = fields(t)
    for k, w in want.items():
        if isinstance(w, tuple):
            got = seq(d[k])
            if sorted(got) != sorted(env[x] for x in w):
                return False
        elif d[k] != (A if w == "alpha" else env[w]):
            return False
    return True


def extra(rep, f, base, sets):
    """Circuit.add and Circuit.extend do what the method of the kind does."""
    srcs = {}
    for name, (params, kind, want) in METHODS.items():
        qs = (0, 2, 3)[: len(params.split())]
        env = dict(zip(params.split(), qs))
        a = []
        for k, w in want.items():
            a.append(f"{k}=" + (f"({', '.join(str(env[x]) for x in w)})" if isinstance(w, tuple) else "alpha" if w == "alpha" else str(env[w])))
        srcs[kind] = (f"instruction.{kind}({', '.join(a)})", kind, want, env)
    members = set(rep.prog.cls("graphix.instruction.InstructionKind").enum_members())
    for k in members - {*srcs, "M"}:
        rep.und("add", k, "instruction kind without a builder in the rule")
    for k, (s, kind, want, env) in srcs.items():
        with rep.guard("add", k):
            build(rep, f, f"add {k}", f"c.add({s})", kind, want, env, base)
            one = outcome(rep, f"c.add({s.replace('=0', '=1').replace('(0', '(1')})")
            rep.expect(one == "raise", "add", f"{k} on a measured qubit", f.loc(), f"an instruction {k} on a measured qubit is accepted")
    with rep.guard("add", "M"):
        out = outcome(rep, "c.add(instruction.M(3, Axis.Y))")
        d = fields(out[0][-1]) if out != "raise" else {}
        rep.expect(d.get("target") == 3 and d["axis"].name == "Y" and out[1] == sets[frozenset({0, 2})], "add", "M", f.loc(), "a measurement added to the circuit is not recorded, or its qubit stays usable")
    g = method(rep, T + ".Circuit", "extend")
    rep.analysed(g)
    with rep.guard("add", "extend"):
        all_ = [s for s, *_ in srcs.values()]
        out = outcome(rep, f"c.extend([{', '.join(all_)}])")
        rep.expect(out != "raise" and [t.args[0].rsplit('.', 1)[-1] for t in out[0][len(base[0]):]] == list(srcs), "add", "extend", g.loc(), "does not add all instructions in order")
