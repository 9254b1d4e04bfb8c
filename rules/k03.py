"""K03: the built-in channels and noises are the maps they are documented to be, and trace preserving."""

from fractions import Fraction
from itertools import product

from sa.h import *
from sa.values import IMAG, padd, pmul

TECHNIQUE = "static analysis: abstract interpretation with exact constant folding; superoperators over polynomials in the symbolic probability"
RULE = (
    "Each built-in channel is folded with symbolic probabilities into its Kraus operators; the superoperator they make (Σ K ⊗ K*) and Σ K†K are compared, as polynomials in the probabilities and their square roots, "
    "with the documented map and the identity. The validation of Kraus data is folded on generic complex operators, and each noise is tied to the channel of its own probability."
)
ASSUMPTIONS = ("probabilities are real numbers in [0, 1], so that the square of a square root is its argument",)
CH = "graphix.channels"
PAULI = {"I": [[1, 0], [0, 1]], "X": [[0, 1], [1, 0]], "Y": [[0, pmul(-1, IMAG)], [IMAG, 0]], "Z": [[1, 0], [0, -1]]}


def opaque(g):
    return g.name == "__init__" and in_classes(g, ("KrausChannel", "KrausData"))


def kron(a, b):
    return [[pmul(x, y) for x in r for y in s] for r in a for s in b]


def conj(x):
    return _AI.conj_num(x)


_AI = None


def superop(kraus):
    n = len(kraus[0])
    out = {}
    for k in kraus:
        for i, j, a, b in product(range(n), repeat=4):
            v = pmul(k[i][a], conj(k[j][b]))
            out[i, j, a, b] = padd(out.get((i, j, a, b), 0), v)
    return {k: v for k, v in out.items() if v != 0}


def mix(*terms):
    """Superoperator of Σ w P ρ P†."""
    out = {}
    for w, m in terms:
        for k, v in superop([m]).items():
            out[k] = padd(out.get(k, 0), pmul(w, v))
    return {k: v for k, v in out.items() if v != 0}


def normalisation(kraus):
    n = len(kraus[0])
    return [[_sum(pmul(conj(k[r][i]), k[r][j]) for k in kraus for r in range(n)) for j in range(n)] for i in range(n)]


def _sum(it):
    s = 0
    for x in it:
        s = padd(s, x)
    return s


def kraus_of(t):
    d = fields(t)
    out = []
    for k in seq(d["kraus_data"]):
        f = fields(k)
        out.append([[pmul(f["coef"], x) for x in seq(r)] for r in seq(f["operator"])])
    return out


def expected():
    p, px, py, pz = (var(n) for n in ("p", "px", "py", "pz"))
    q = padd(1, p, -1)
    t = pmul(Fraction(1, 3), p)
    single = {"I": q, "X": t, "Y": t, "Z": t}
    two = [(w, kron(PAULI[a], PAULI[b])) for a in PAULI for b in PAULI for w in [q if a == b == "I" else pmul(Fraction(1, 15), p)]]
    from sa.values import psqrt

    ad = [[[1, 0], [0, psqrt(q)]], [[0, psqrt(p)], [0, 0]]]
    return {
        "dephasing_channel": ((p,), mix((q, PAULI["I"]), (p, PAULI["Z"]))),
        "depolarising_channel": ((p,), mix(*[(w, PAULI[s]) for s, w in single.items()])),
        "pauli_channel": ((px, py, pz), mix((padd(padd(padd(1, px, -1), py, -1), pz, -1), PAULI["I"]), (px, PAULI["X"]), (py, PAULI["Y"]), (pz, PAULI["Z"]))),
        "two_qubit_depolarising_channel": ((p,), mix(*two)),
        "two_qubit_depolarising_tensor_channel": ((p,), mix(*[(pmul(single[a], single[b]), kron(PAULI[a], PAULI[b])) for a in PAULI for b in PAULI])),
        "amplitude_damping_channel": ((p,), superop(ad)),
        "two_qubit_amplitude_damping_channel": ((p,), superop([kron(a, b) for a in ad for b in ad])),
    }


NOISES = {
    "graphix.noise_models.depolarising.DepolarisingNoise": ("depolarising_channel", 1),
    "graphix.noise_models.depolarising.TwoQubitDepolarisingNoise": ("two_qubit_depolarising_channel", 2),
    "graphix.noise_models.amplitude_damping.AmplitudeDampingNoise": ("amplitude_damping_channel", 1),
    "graphix.noise_models.amplitude_damping.TwoQubitAmplitudeDampingNoise": ("two_qubit_amplitude_damping_channel", 2),
}


def run(rep):
    global _AI
    _AI = B.AI(rep.prog)
    exp = expected()
    for name, (args, want) in exp.items():
        with rep.guard("channel", name):
            f = rep.prog.func(f"{CH}.{name}")
            rep.analysed(f)
            t = returned(rep, CH, f"{name}({', '.join(show(a) for a in args)})", {show(a): a for a in args})
            ks = kraus_of(t)
            rep.expect(superop(ks) == want, "channel", name, f.loc(), "its Kraus operators do not make the documented map")
            n = len(ks[0])
            eye = [[int(i == j) for j in range(n)] for i in range(n)]
            rep.expect(normalisation(ks) == eye, "trace preserving", name, f.loc(), "the sum of K†K is not the identity for every probability")
            rep.expect(len(ks) <= n * n, "trace preserving", f"{name} size", f.loc(), "more than 4^n operators")
    for qual, (ch, n) in NOISES.items():
        cls = rep.prog.cls(qual)
        with rep.guard("noise", cls.name):
            f = method(rep, qual, "to_krauschannel")
            rep.analysed(f)
            t = returned(rep, cls.module.name, f"{cls.name}(p).to_krauschannel()", {"p": var("p")})
            rep.expect(superop(kraus_of(t)) == exp[ch][1], "noise", cls.name, f.loc(), f"its channel is not the {ch} of its probability")
            g = method(rep, qual, "nqubits")
            k = fold(rep, cls.module.name, f"{cls.name}(p).nqubits", p=var("p"))
            rep.expect(k == n, "noise", f"{cls.name} size", g.loc(), f"says that it acts on {show(k)} qubits, its channel acts on {n}")
    others = [c.qual for c in rep.prog.cls("graphix.noise_models.noise_model.Noise").subclasses() if c.qual not in NOISES]
    for o in others:
        rep.und("noise", o, "noise without a documented channel in the rule")
    probability(rep)
    validation(rep)
    rep.floor_total(30)


def returned(rep, mod, expr, kw):
    """Value of the expression on the path where the arguments are accepted; other paths must refuse them."""
    ai = B.AI(rep.prog, opaque=opaque)
    ai.hooks["graphix.utils.lock"] = lock_hook
    ps = ai.explore(lam(rep, mod, expr, *kw), kw)
    vals = {p.frozen for p in ps if p.kind == "return"}
    if len(vals) != 1:
        raise AnalysisError(f"{expr} has {len(vals)} outcomes")
    return next(iter(vals))


def probability(rep):
    U = "graphix.utils"
    f = method(rep, U + ".BoundedFloat", "validate")
    rep.analysed(f)
    for x, ok in ((Fraction(-1, 10), False), (0, True), (Fraction(1, 2), True), (1, True), (Fraction(11, 10), False)):
        with rep.guard("probability", str(x)):
            ai = B.AI(rep.prog)
            ps = ai.explore(lam(rep, U, "Probability().validate(x)", "x"), {"x": x})
            kinds = {p.kind for p in ps}
            rep.expect(kinds == {"return" if ok else "raise"}, "probability", str(x), f.loc(), f"{x} is {'refused' if ok else 'accepted'}")
    for qual in NOISES:
        with rep.guard("probability", qual):
            cls = rep.prog.cls(qual)
            v = evalconst(rep, cls.module.name, f"{cls.name}.prob")
            d = freeze(v)
            ok = isinstance(d, Term) and d.op == "new" and rep.prog.cls(d.args[0]).is_subclass(rep.prog.cls(U + ".BoundedFloat")) and dict(d.args[1]).get("minvalue") == 0 and dict(d.args[1]).get("maxvalue") == 1
            rep.expect(ok, "probability", qual, cls.module.rel, "its probability is not checked to be between 0 and 1")


def validation(rep):
    """KrausChannel accepts exactly the normalised data."""
    f = method(rep, CH + ".KrausChannel", "__init__")
    rep.analysed(f)
    r = "np.sqrt(1 / 2)"
    for lit, why in (
        (f"KrausData({r}, np.array([[1, 0], [0, 1]])), KrausData({r}, np.array([[0, 1], [1, 0]]))", "a bit flip"),
        ("KrausData(1, np.array([[1, 0], [0, 0]])), KrausData(1, np.array([[0, 1], [0, 0]]))", "a reset"),
        ("KrausData(1j, np.array([[0, -1j], [1j, 0]]))", "a gate with a phase"),
        ("KrausData(3 / 5, np.eye(4)), KrausData(4j / 5, np.diag([1, -1, 1, -1]))", "a two-qubit dephasing"),
    ):
        with rep.guard("validation", why):
            ps = B.AI(rep.prog).explore(lam(rep, CH, f"KrausChannel([{lit}])"), {})
            kinds = {p.kind for p in ps}
            rep.expect(None if len(kinds) > 1 else kinds == {"return"}, "validation", why, f.loc(), f"{why} is refused although normalised")
    for lit, why in (
        ("KrausData(1, np.array([[1, 1], [0, 0]]))", "data with a unit diagonal only"),
        ("KrausData(1, np.array([[1, 0], [0, 0]])), KrausData(1, np.array([[0, 0], [1, 0]]))", "data normalised in the wrong order"),
        ("KrausData(2, np.eye(2))", "data with a coefficient left out"),
        ("KrausData(1, np.diag([2, 0]))", "data with a unit mean only"),
        ("KrausData(1, np.array([[0, 1j], [1, 0]])), KrausData(1j, np.array([[1, 0], [0, 1]]))", "data normalised only on average"),
    ):
        with rep.guard("validation", why):
            ps = B.AI(rep.prog).explore(lam(rep, CH, f"KrausChannel([{lit}])"), {})
            kinds = {p.kind for p in ps}
            rep.expect(None if len(kinds) > 1 else kinds == {"raise"}, "validation", why, f.loc(), f"{why} are accepted as a channel")
    for lit, why in (
        ("KrausChannel([])", "empty data"),
        ("KrausChannel([KrausData(1, np.eye(2)), KrausData(1, np.eye(4))])", "operators of different sizes"),
        ("KrausChannel([KrausData(3 / 5, np.eye(2))] + [KrausData(2 / 5, np.eye(2))] * 4)", "more than 4^n operators"),
        ("KrausData(1, np.array([[1, 0, 0], [0, 1, 0]]))", "an operator which is not square"),
        ("KrausData(1, np.eye(3))", "an operator which is not on qubits"),
    ):
        with rep.guard("validation", why):
            ps = B.AI(rep.prog).explore(lam(rep, CH, lit), {})
            rep.expect({p.kind for p in ps} == {"raise"}, "validation", why, f.loc(), f"{why} are accepted")

