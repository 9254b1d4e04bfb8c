"""N02: channels are the maps their names and documentation say, and are applied to the qubits given."""

from fractions import Fraction
from itertools import permutations, product

from sa import dense as D
from sa.h import *
from sa.values import IMAG, FuncVal, pmul, psqrt, to_poly

TECHNIQUE = "static analysis: abstract interpretation of the channels, the noise classes and DensityMatrix.apply_channel on symbolic probabilities, Kraus operators and density matrices; exact polynomial comparison with the documented maps"
RULE = (
    "Every channel constructor is interpreted with symbolic probabilities and the superoperator of the Kraus operators it returns is compared, as polynomials, with the documented map; every noise class must give the channel of its name with the probability it was built with, on the number of qubits it states, and refuse probabilities outside [0, 1]. "
    "DensityMatrix.apply_channel and apply_noise are interpreted with symbolic Kraus operators on a symbolic density matrix for every ordered choice of qubits and must leave Σ|c|² K ρ K† on exactly those qubits. KrausChannel must refuse what is not a channel (wrong sizes, too many operators, ΣK†K ≠ 1) and accept what is."
)
ASSUMPTIONS = ("exact arithmetic: rounding and the tolerance of np.allclose are not modelled", "numpy has its documented semantics (model in sa/arrays.py)", "at most three qubits")
CH, DM, NM = "graphix.channels", "graphix.sim.density_matrix", "graphix.noise_models"
I2 = ((1, 0), (0, 1))
X = ((0, 1), (1, 0))
Y = ((0, pmul(IMAG, -1)), (IMAG, 0))
Z = ((1, 0), (0, -1))
PAULIS = {"I": I2, "X": X, "Y": Y, "Z": Z}


def kron(a, b):
    return [[D.product_of(x, y) for x in ra for y in rb] for ra in a for rb in b]


def superop(kraus):
    """Entries of Σ w K ⊗ K* of weighted operators."""
    d = len(kraus[0][1])
    return [D.total(D.product_of(w, D.product_of(k[i][j], D.conj(k[m][n]))) for w, k in kraus) for i, j, m, n in product(range(d), repeat=4)]


def items(v):
    if isinstance(v, Term) and v.op == "list":
        return [items(x) for x in v.args]
    if isinstance(v, tuple):
        return [items(x) for x in v]
    if isinstance(v, Term) and v.op in ("complex", "float") and len(v.args) == 1:
        return items(v.args[0])
    return v


def weighted(pairs):
    return [(D.product_of(c, D.conj(c)), k) for c, k in pairs]


def minus(x, *ys):
    return D.total([x, *(pmul(y, -1) for y in ys)])


def depol(p):
    return [(minus(1, p), I2), *((pmul(p, Fraction(1, 3)), P) for P in (X, Y, Z))]


def damping(p):
    return [(1, ((1, 0), (0, psqrt(minus(1, p))))), (1, ((0, psqrt(p)), (0, 0)))]


def pairs_of(ops):
    return [(D.product_of(w, v), kron(a, b)) for w, a in ops for v, b in ops]


SPEC = {
    "dephasing_channel": (1, 1, lambda p: [(minus(1, p), I2), (p, Z)]),
    "depolarising_channel": (1, 1, depol),
    "pauli_channel": (3, 1, lambda x, y, z: [(minus(1, x, y, z), I2), (x, X), (y, Y), (z, Z)]),
    "two_qubit_depolarising_channel": (1, 2, lambda p: [(minus(1, p) if (a, b) == ("I", "I") else pmul(p, Fraction(1, 15)), kron(PAULIS[a], PAULIS[b])) for a, b in product("IXYZ", repeat=2)]),
    "two_qubit_depolarising_tensor_channel": (1, 2, lambda p: pairs_of(depol(p))),
    "amplitude_damping_channel": (1, 1, damping),
    "two_qubit_amplitude_damping_channel": (1, 2, lambda p: pairs_of(damping(p))),
}
NOISES = {
    "depolarising.DepolarisingNoise": "depolarising_channel",
    "depolarising.TwoQubitDepolarisingNoise": "two_qubit_depolarising_channel",
    "amplitude_damping.AmplitudeDampingNoise": "amplitude_damping_channel",
    "amplitude_damping.TwoQubitAmplitudeDampingNoise": "two_qubit_amplitude_damping_channel",
}
HALF = "1 / np.sqrt(2)"
REFUSED = {
    "no operators": "[]",
    "an operator that is not square": "[KrausData(1, np.array([[1, 0]]))]",
    "a vector": "[KrausData(1, np.array([1, 0]))]",
    "a three by three operator": "[KrausData(1, np.eye(3))]",
    "operators of different sizes": f"[KrausData({HALF}, np.eye(2)), KrausData({HALF}, np.eye(4))]",
    "operators of different sizes, the larger first": f"[KrausData({HALF}, np.eye(4)), KrausData({HALF}, np.eye(2))]",
    "a third operator of another size": f"[KrausData({HALF}, np.eye(2)), KrausData({HALF}, np.eye(2)), KrausData(0, np.eye(4))]",
    "a scalar beside an operator": "[KrausData(1, np.array([[1 / 2, -1 / 2], [-1 / 2, 1 / 2]])), KrausData(1 / np.sqrt(2), np.eye(1))]",
    "five operators on a qubit": "[KrausData(1 / 2, Ops.I), KrausData(1 / 2, Ops.X), KrausData(1 / 2, Ops.Y), KrausData(1 / 2, Ops.Z), KrausData(0, Ops.Z)]",
    "weights that do not add up to one": "[KrausData(1 / 2, Ops.X), KrausData(1 / 2, Ops.Z)]",
    "weights that add up to two": "[KrausData(1, Ops.X), KrausData(1, Ops.Z)]",
    "the identity times two": "[KrausData(2, Ops.I)]",
    "ΣKK† = 1 but not ΣK†K": "[KrausData(1, np.array([[1, 0], [0, 0]])), KrausData(1, np.array([[0, 0], [1, 0]]))]",
    "a projector alone": "[KrausData(1, np.array([[1, 0], [0, 0]]))]",
    "operators that only add up linearly": "[KrausData(1, np.array([[1, 0], [0, 0]])), KrausData(1, np.array([[1, 0], [0, 1]]))]",
    "a sum that is not the identity off the diagonal": "[KrausData(1, np.array([[1, 1], [0, 0]])), KrausData(1, np.array([[0, 0], [0, 0]]))]",
    "ΣK†K with off-diagonal entries": f"[KrausData({HALF}, np.array([[1, 1], [0, 0]])), KrausData({HALF}, np.array([[1, 1], [0, 0]]))]",
}
ACCEPTED = {
    "a unitary": ("[KrausData(1, Ops.Y)]", 1, 1),
    "an imaginary weight": ("[KrausData(1j, Ops.X)]", 1, 1),
    "a reset": ("[KrausData(1, np.array([[1, 0], [0, 0]])), KrausData(1, np.array([[0, 1], [0, 0]]))]", 1, 2),
    "four operators on a qubit": ("[KrausData(1 / 2, Ops.I), KrausData(1 / 2, Ops.X), KrausData(1 / 2, Ops.Y), KrausData(1 / 2, Ops.Z)]", 1, 4),
    "five operators on two qubits": ("[KrausData(1 / 2, np.eye(4)), KrausData(1 / 2, np.eye(4)), KrausData(1 / 2, np.eye(4)), KrausData(1j / 2, np.eye(4)), KrausData(0, np.eye(4))]", 2, 5),
    "an iterator": ("iter([KrausData(1, np.eye(8))])", 3, 1),
}


def run(rep):
    p, x, y, z = (Term("var", v, typ=("prim", "float")) for v in "pxyz")

    def calls(mod, expr, **args):
        return outcomes(rep, mod, expr, rec=8, models=True, arrays=True, **args)

    inside = {p: Fraction(1, 3), x: Fraction(1, 5), y: Fraction(1, 7), z: Fraction(1, 2)}

    def about_range(path):
        """Whether the path is one where a symbolic probability was found out of range."""
        for a, v in path.guards:
            if isinstance(a, Term) and a.op == "lt0":
                e = 0
                for mono, c in to_poly(a.args[0]).items():
                    for atom, k in mono:
                        if atom not in inside or k < 0:
                            c = None
                            break
                        c *= inside[atom] ** k
                    if c is None:
                        e = None
                        break
                    e += c
                if e is not None and (e < 0) != v:
                    return True
        return False

    def check_map(rule, key, at, ps, nq, want):
        kept = [q for q in ps if not about_range(q)]
        if not kept:
            raise AnalysisError("no outcome")
        bad = []
        for q in kept:
            if q.kind != "return":
                bad.append(f"raises {q.value[0]}: {show(q.value[1])[:100]}")
                continue
            data, n = items(q.frozen)
            if any(isinstance(t, Term) and t.op == "attr" for t in subterms(q.frozen)):
                raise AnalysisError(f"unknown attribute in {show(q.frozen)[:80]}")
            if n != nq:
                bad.append(f"the channel acts on {n} qubits instead of {nq}")
                continue
            if any(len(k) != 2**nq or len(row) != 2**nq for _, k in data for row in k):
                bad.append("an operator has the wrong size")
                continue
            got, exp = superop(weighted(data)), superop(want)
            if not D.same(got, exp):
                k = next(i for i, (u, v) in enumerate(zip(got, exp, strict=True)) if not D.same(u, v))
                d = 2**nq
                out, i = (k // d**3, k // d % d), (k // d**2 % d, k % d)
                bad.append(f"|{i[0]}><{i[1]}| has {show(got[k])[:120]} of |{out[0]}><{out[1]}| instead of {show(exp[k])[:120]}")
        rep.expect(not bad, rule, key, at, "; ".join(bad[:2]))

    extract = "(lambda c: ([(d.coef, d.operator.tolist()) for d in c], c.nqubit))"
    values = {1: [(p,), (0,), (Fraction(1, 3),), (1,)], 3: [(x, y, z), (0, 0, 0), (Fraction(1, 3),) * 3, (Fraction(1, 5), Fraction(1, 7), Fraction(1, 2)), (1, 0, 0), (0, 1, 0), (0, 0, 1)]}
    for name, (k, nq, spec) in SPEC.items():
        f = rep.prog.func(f"{CH}.{name}")
        rep.analysed(f)
        for vals in values[k]:
            key = f"{name}({', '.join(map(show, vals))})"
            with rep.guard("channel", key):
                names = [f"v{i}" for i in range(k)]
                check_map("channel", key, f.loc(), calls(CH, f"{extract}(ch({', '.join(names)}))", ch=FuncVal(f), **dict(zip(names, vals, strict=True))), nq, spec(*vals))
    f = rep.prog.func(f"{CH}.pauli_channel")
    for vals in ((1, Fraction(1, 10), 0), (0, 1, Fraction(1, 10)), (Fraction(1, 2), Fraction(1, 2), Fraction(1, 2))):
        key = f"pauli_channel({', '.join(map(show, vals))}) is refused"
        with rep.guard("channel range", key):
            ps = calls(CH, "len(pauli_channel(a, b, c))", **dict(zip("abc", vals, strict=True)))
            bad = [q.kind for q in ps if q.kind != "raise" or q.value[0] != "ValueError"]
            rep.expect(not bad, "channel range", key, f.loc(), "probabilities that add up to more than one are accepted")

    for name, ch in NOISES.items():
        mod, cls = name.rsplit(".", 1)
        mod = f"{NM}.{mod}"
        m = method(rep, f"{mod}.{cls}", "to_krauschannel")
        rep.analysed(m)
        _, nq, spec = SPEC[ch]
        for v in (p, 0, Fraction(1, 3), 1):
            key = f"{cls}({show(v)}).to_krauschannel()"
            with rep.guard("noise", key):
                check_map("noise", key, m.loc(), calls(mod, f"{extract}({cls}(v).to_krauschannel())", v=v), nq, spec(v))
            key = f"{cls}({show(v)}).nqubits"
            with rep.guard("noise size", key):
                ps = [q for q in calls(mod, f"{cls}(v).nqubits", v=v) if not about_range(q)]
                rep.expect(bool(ps) and all(q.kind == "return" and q.value == nq for q in ps), "noise size", key, m.loc(), f"is {[show(q.value)[:60] for q in ps][:2]} instead of {nq}")
        key = f"{cls} follows the probability assigned later"
        with rep.guard("noise", key):
            check_map("noise", key, m.loc(), calls(mod, f"(lambda s: (setattr(s, 'prob', Fraction(1, 7)), {extract}(s.to_krauschannel()))[1])({cls}(0))".replace("Fraction(1, 7)", "v"), v=Fraction(1, 7)), nq, spec(Fraction(1, 7)))
        for v in (Fraction(-1, 10), Fraction(11, 10), -1, 2):
            for how, expr in (("built with", f"{cls}(v)"), ("given", f"setattr({cls}(0), 'prob', v)")):
                key = f"{cls} {how} the probability {show(v)}"
                with rep.guard("noise range", key):
                    ps = calls(mod, f"({expr}, 0)[1]", v=v)
                    rep.expect(bool(ps) and all(q.kind == "raise" and q.value[0] == "ValueError" for q in ps), "noise range", key, m.loc(), "a probability outside [0, 1] is accepted")

    init = method(rep, f"{CH}.KrausChannel", "__init__")
    rep.analysed(init)
    for what, expr in REFUSED.items():
        key = f"KrausChannel of {what}"
        with rep.guard("refused", key):
            ps = calls(CH, f"KrausChannel({expr}).nqubit")
            if any(q.guards for q in ps):
                raise AnalysisError("undecided guard")
            rep.expect(bool(ps) and all(q.kind == "raise" and q.value[0] == "ValueError" for q in ps), "refused", key, init.loc(), f"is not refused with a ValueError: {ps[0].kind} {show(ps[0].value)[:80]}")
    for what, (expr, nq, k) in ACCEPTED.items():
        key = f"KrausChannel of {what}"
        with rep.guard("accepted", key):
            ps = calls(CH, f"(lambda c: (c.nqubit, len(c), [d.nqubit for d in c], [c[i].nqubit for i in range(len(c))]))(KrausChannel({expr}))")
            if any(q.guards for q in ps):
                raise AnalysisError("undecided guard")
            want = [nq, k, [nq] * k, [nq] * k]
            rep.expect(bool(ps) and all(q.kind == "return" and items(q.frozen) == want for q in ps), "accepted", key, init.loc(), f"{ps[0].kind} {show(ps[0].value)[:100]} instead of {want}")
    with rep.guard("exposure", "KrausData keeps its own operator"):
        ps = calls(CH, "(lambda m: (lambda d: (m.__setitem__((0, 0), 5), d.operator.tolist())[1])(KrausData(1, m)))(np.array([[0.0, 1.0], [1.0, 0.0]], dtype=np.complex128))")
        rep.expect(bool(ps) and all(q.kind == "return" and items(q.frozen) == [[0, 1], [1, 0]] for q in ps), "exposure", "KrausData keeps its own operator", init.loc(), "the operator of a Kraus datum changes with the array it was made from")

    ap = method(rep, f"{DM}.DensityMatrix", "apply_channel")
    an = method(rep, f"{DM}.DensityMatrix", "apply_noise")
    rep.analysed(ap)
    rep.analysed(an)
    state = "(lambda s: (setattr(s, 'rho', np.array(rho, dtype=np.complex128)), {0}, s.rho.tolist(), s.nqubit)[2:])(DensityMatrix(nqubit={1}))"

    def check_state(rule, key, at, ps, want, nq, rho):
        bad, fine = [], 0
        for q in ps:
            refused = [a for a, v in q.guards if v is False and "allclose" in show(a)[:40]]
            if q.kind == "raise":
                if not refused and not about_range(q):
                    bad.append(f"raises {q.value[0]}: {show(q.value[1])[:100]}")
                continue
            fine += 1
            got, n = items(q.frozen)
            if n != nq:
                bad.append(f"the state has {n} qubits")
            elif not D.same(got, want):
                i, j = next((i, j) for i in range(2**nq) for j in range(2**nq) if not D.same(got[i][j], want[i][j]))
                bad.append(f"entry {i}, {j} is {show(got[i][j])[:150]} instead of {show(want[i][j])[:150]}")
        if not fine and not bad:
            raise AnalysisError("no outcome")
        rep.expect(not bad, rule, key, at, "; ".join(bad[:2]))

    def mapped(kraus, rho, qs, n):
        out = None
        for w, k in kraus:
            t = [[D.product_of(w, e) for e in row] for row in D.sandwich(k, rho, qs, n)]
            out = t if out is None else [[D.total(e) for e in zip(r, s, strict=True)] for r, s in zip(out, t, strict=True)]
        return out

    def dense(n):
        return D.matrix("r", 2**n)

    top = 3
    for n in range(1, top + 1):
        rho = dense(n)
        for k in range(1, min(n, 2 if rep.tier != "thorough" else 3) + 1):
            for qs in permutations(range(n), k):
                ks = [D.matrix(f"k{i}", 2**k) for i in range(2 if k < 3 else 1)]
                cs = [D.amp(f"c{i}") for i in range(len(ks))]
                key = f"apply_channel on qubits {qs} of {n}"
                with rep.guard("apply_channel", key):
                    data = ", ".join(f"KrausData(c{i}, np.array(k{i}))" for i in range(len(ks)))
                    ps = calls(DM, state.format(f"s.apply_channel(KrausChannel([{data}]), {qs})", n), rho=rho, KrausChannel=rep.prog.cls(f"{CH}.KrausChannel"), KrausData=rep.prog.cls(f"{CH}.KrausData"), **{f"k{i}": m for i, m in enumerate(ks)}, **{f"c{i}": c for i, c in enumerate(cs)})
                    check_state("apply_channel", key, ap.loc(), ps, mapped(weighted(list(zip(cs, ks, strict=True))), rho, qs, n), n, rho)
        for name, ch in NOISES.items():
            mod, cls = name.rsplit(".", 1)
            _, nq, spec = SPEC[ch]
            if nq > n:
                continue
            for qs in permutations(range(n), nq):
                key = f"apply_noise {cls} on qubits {qs} of {n}"
                with rep.guard("apply_noise", key):
                    ps = calls(DM, state.format(f"s.apply_noise({qs}, noise(p))", n), rho=rho, noise=rep.prog.cls(f"{NM}.{mod}.{cls}"), p=p)
                    check_state("apply_noise", key, an.loc(), ps, mapped(spec(p), rho, qs, n), n, rho)
    for rule, k in (("channel", 28), ("noise", 20), ("noise size", 16), ("noise range", 32), ("refused", 14), ("accepted", 6), ("apply_channel", 12), ("apply_noise", 20)):
        rep.floor(rule, k)
