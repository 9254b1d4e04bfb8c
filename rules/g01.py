"""G01: rewriting instructions into others keeps the unitary and the measurements."""

from fractions import Fraction
from itertools import permutations

from sa import mat
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation with exact constant folding; unitaries over Q(e^{iπ/4}) with symbolic angles"
RULE = (
    "Each rewriting is folded on an instruction of every kind, with a symbolic angle and every placement of its qubits, into a known sequence of instructions. "
    "The product of their exact matrices must be the matrix of the original up to a global phase, for every angle; measurements must keep their observable; the result must stay in the target set of kinds."
)
ASSUMPTIONS = ()
T = "graphix.transpiler"
I = "graphix.instruction"
ALPHA = Term("var", "alpha", typ=("prim", "float"))
# kind -> constructor arguments in terms of qubits a, b, c, and the qubits the gate matrix acts on
KINDS = {
    "CCX": ("target=c, controls=(a, b)", "abc"),
    "RZZ": ("target=b, control=a, angle=alpha", "ab"),
    "CNOT": ("target=b, control=a", "ab"),
    "SWAP": ("targets=(a, b)", "ab"),
    "CZ": ("targets=(a, b)", "ab"),
    **{k: ("target=a", "a") for k in ("H", "S", "X", "Y", "Z", "I")},
    **{k: ("target=a, angle=alpha", "a") for k in ("J", "RX", "RY", "RZ")},
}
ANGLED = ("RZZ", "J", "RX", "RY", "RZ")


def gate_of(t):
    """(kind, qubits, matrix or measurement axis) of an instruction term."""
    if not (isinstance(t, Term) and t.op == "new"):
        raise AnalysisError(f"not a known instruction: {show(t)[:200]}")
    kind = t.args[0].rsplit(".", 1)[-1]
    d = fields(t)
    if kind == "M":
        return kind, (d["target"],), d["axis"]
    if kind == "CCX":
        qs = (*seq(d["controls"]), d["target"])
    elif kind in ("CNOT", "RZZ"):
        qs = (d["control"], d["target"])
    elif kind in ("SWAP", "CZ"):
        qs = tuple(seq(d["targets"]))
    else:
        qs = (d["target"],)
    if not all(is_num(q) for q in qs) or len(set(qs)) != len(qs):
        raise AnalysisError(f"qubits of {show(t)[:200]} are not known")
    return kind, tuple(int(q) for q in qs), mat.rotation(kind, d["angle"]) if kind in ANGLED else mat.GATES[kind]


def product(terms, n):
    m = mat.eye(1 << n)
    for t in terms:
        k, qs, g = gate_of(t)
        if k == "M":
            raise AnalysisError("measurement in the decomposition of a gate")
        m = mat.mm(mat.embed(g, qs, n), m)
    return m


def instr(kind, qs):
    """Source of an instruction of a kind with its qubits placed."""
    a, _ = KINDS[kind]
    for n, q in zip("abc", qs):
        a = _sub(a, n, q)
    return f"instruction.{kind}({a})"


def _sub(s, name, q):
    import re

    return re.sub(rf"\b{name}\b", str(q), s)


def placements(kind):
    k = len(KINDS[kind][1])
    return list(permutations(range(3), k))


def run(rep):
    members = set(rep.prog.cls(I + ".InstructionKind").enum_members())
    for k in members - {*KINDS, "M"}:
        rep.und("kinds", k, "instruction kind without a matrix in the rule")
    for fn, kind in (("rzz", "RZZ"), ("ccx", "CCX"), ("cnot", "CNOT"), ("swap", "SWAP"), ("y", "Y"), ("rx", "RX"), ("ry", "RY"), ("rz", "RZ")):
        f = rep.prog.func(f"{T}.decompose_{fn}")
        rep.analysed(f)
        for qs in placements(kind):
            same(rep, "decomposition", f"{f.name}{qs}", f, f"list(decompose_{fn}({instr(kind, qs)}))", kind, qs, None)
    f = rep.prog.func(T + ".instructions_to_jcz")
    rep.analysed(f)
    for kind in KINDS:
        for qs in placements(kind):
            same(rep, "J-CZ", f"{kind}{qs}", f, f"list(instructions_to_jcz([{instr(kind, qs)}]))", kind, qs, {"J", "CZ"})
    measured(rep, f, "list(instructions_to_jcz([instruction.M(1, Axis.{})]))", "J-CZ")
    with rep.guard("J-CZ", "sequence"):
        srcs = [instr(k, qs) for k in KINDS for qs in placements(k)[-1:]]
        got = seq(fold(rep, T, f"list(instructions_to_jcz([{', '.join(srcs)}]))", rec=8, alpha=ALPHA))
        want = [x for s in srcs for x in seq(fold(rep, T, f"list(instructions_to_jcz([{s}]))", rec=8, alpha=ALPHA))]
        rep.expect(got == want, "J-CZ", "sequence", f.loc(), "the instructions of a sequence are not rewritten one by one in order")
    f = method(rep, T + ".Circuit", "transpile_j_to_rzh")
    rep.analysed(f)
    for kind in KINDS:
        for qs in placements(kind):
            same(rep, "J to RZ-H", f"{kind}{qs}", f, f"Circuit(3, [{instr(kind, qs)}]).transpile_j_to_rzh().instruction", kind, qs, members - {"J"})
    measured(rep, f, "Circuit(3, [instruction.M(1, Axis.{})]).transpile_j_to_rzh().instruction", "J to RZ-H")
    f = method(rep, T + ".Circuit", "transpile_measurements_to_z_axis")
    rep.analysed(f)
    for kind in KINDS:
        for qs in placements(kind):
            same(rep, "measure on Z", f"{kind}{qs}", f, f"Circuit(3, [{instr(kind, qs)}]).transpile_measurements_to_z_axis().instruction", kind, qs, None)
    measured(rep, f, "Circuit(3, [instruction.M(1, Axis.{})]).transpile_measurements_to_z_axis().instruction", "measure on Z", "Z")
    for name in ("transpile_j_to_rzh", "transpile_measurements_to_z_axis"):
        f = method(rep, T + ".Circuit", name)
        srcs = [instr(k, qs) for k in KINDS for qs in placements(k)[-1:]] + ["instruction.M(2, Axis.X)", "instruction.M(0, Axis.Y)"]
        with rep.guard("order", name):
            got = seq(fold(rep, T, f"Circuit(3, [{', '.join(srcs)}]).{name}().instruction", rec=8, alpha=ALPHA))
            want = [x for s in srcs for x in seq(fold(rep, T, f"Circuit(3, [{s}]).{name}().instruction", rec=8, alpha=ALPHA))]
            rep.expect(got == want, "order", name, f.loc(), "the instructions of a circuit are not rewritten one by one in order")
            w = fold(rep, T, f"Circuit(3, [{', '.join(srcs)}]).{name}().width", rec=8, alpha=ALPHA)
            rep.expect(w == 3, "order", f"{name} width", f.loc(), f"a circuit of width 3 gets width {show(w)}")
    rep.floor("decomposition", 30)
    rep.floor("J-CZ", 60)
    rep.floor_total(200)


def same(rep, rule, key, f, expr, kind, qs, allowed):
    with rep.guard(rule, key):
        out = seq(fold(rep, T, expr, rec=8, alpha=ALPHA))
        got = product(out, 3)
        want = mat.embed(mat.rotation(kind, ALPHA) if kind in ANGLED else mat.GATES[kind], qs, 3)
        rep.expect(mat.proportional(got, want), rule, key, f.loc(), f"{kind} on {qs} becomes {', '.join(map(brief, out))}, which is another unitary")
        if allowed is not None:
            extra = {gate_of(t)[0] for t in out} - allowed
            rep.expect(not extra, rule, key + " kinds", f.loc(), f"{kind} becomes instructions of kind {extra}")


def measured(rep, f, expr, rule, axis=None):
    """A measurement stays one measurement of the same observable (preceded by gates on its qubit)."""
    for ax in "XYZ":
        with rep.guard(rule, f"M {ax}"):
            out = seq(fold(rep, T, expr.format(ax)))
            k, qs, got = gate_of(out[-1]) if out else (None, None, None)
            ok = k == "M" and qs == (1,) and (axis is None or got.name == axis)
            if ok:
                u = product(out[:-1], 3)
                p = mat.embed(mat.GATES[got.name], (1,), 3)
                ok = mat.meq(mat.mm(mat.dag(u), mat.mm(p, u)), mat.embed(mat.GATES[ax], (1,), 3))
            rep.expect(ok, rule, f"M {ax}", f.loc(), f"a measurement along {ax} becomes {', '.join(map(brief, out))}")


def brief(t):
    d = fields(t)
    return f"{t.args[0].rsplit('.', 1)[-1]}({', '.join(show(v) for v in d.values())})"
