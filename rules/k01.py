"""K01: the tables of the single-qubit Clifford group agree with its matrices."""

from fractions import Fraction

from sa import mat
from sa.h import *
from sa.values import xor_norm

TECHNIQUE = "static analysis: abstract interpretation with exact constant folding (matrices over Q(e^{iπ/4})); exhaustive over the 24 elements"
RULE = (
    "Every operation on the 24 Clifford gates (product, conjugate, conjugation of each Pauli with its sign, commutation of domains, H/S/Z decomposition, OpenQASM decomposition, "
    "decomposition into Pauli measurements, recognition of aliases) is folded abstractly for each element and compared with the exact product of the matrices written in the source."
)
ASSUMPTIONS = ("numpy literals and operators denote the exact matrices they are written as",)
PAULIS = "XYZ"
C = "graphix.clifford.Clifford"


def run(rep):
    clf = rep.prog.cls(C)
    members = [EnumVal(clf, n) for n in clf.enum_members()]
    rep.expect(len(members) == 24, "group", C, clf.module.rel, f"{len(members)} members instead of 24")
    loc = method(rep, C, "matrix").loc()
    mats = {}
    for c in members:
        with rep.guard("matrix", c.name):
            mats[c] = mat.matrix(freeze(apply(rep, method(rep, C, "matrix"), mats=True, self=c)))
            rep.expect(mat.unitary(mats[c]), "unitary", f"{C} {c.name}", loc, "the matrix is not unitary")
    for i, a in enumerate(members):
        for b in members[:i]:
            if a in mats and b in mats and mat.proportional(mats[a], mats[b]):
                rep.bad("distinct", f"{C} {a.name} {b.name}", loc, "two members have the same matrix up to a phase")
    for n in ("I", "X", "Y", "Z", "S", "SDG", "H"):
        with rep.guard("alias", n):
            c = evalconst(rep, "graphix.clifford", f"Clifford.{n}")
            rep.expect(mat.proportional(mats[c], mat.GATES[n]), "alias", f"Clifford.{n}", clf.module.rel, f"Clifford.{n} is {c.name}, whose matrix is not {n}")
    products(rep, members, mats)
    conjugates(rep, members, mats)
    domains(rep, members, mats)
    decompositions(rep, members, mats)
    rep.floor_total(900)


def products(rep, members, mats):
    f = method(rep, C, "__matmul__")
    for a in members:
        for b in members:
            with rep.guard("product", f"{a.name} @ {b.name}"):
                r = apply(rep, f, self=a, **{f.params[1].arg: b})
                rep.expect(r in mats and mat.proportional(mats[r], mat.mm(mats[a], mats[b])), "product", f"{a.name} @ {b.name}", f.loc(),
                           f"{a.name} @ {b.name} gives {show(r)}, whose matrix is not the product")
    f = method(rep, C, "conj")
    for a in members:
        with rep.guard("conjugate", a.name):
            r = apply(rep, f, self=a)
            rep.expect(r in mats and mat.proportional(mats[r], mat.dag(mats[a])), "conjugate", a.name, f.loc(), f"the conjugate of {a.name} is given as {show(r)}")


def pauli_of(m):
    """(symbol, exponent of i) with m = i^k P, exactly."""
    for s in ("I", *PAULIS):
        for k in range(4):
            if mat.meq(m, mat.scale(mat.GATES[s], mat.phase(Fraction(k, 2), {}))):
                return s, k
    return None


def read_pauli(t):
    """(symbol, exponent of i) of an abstract Pauli."""
    d = fields(t)
    u = d["unit"]
    return d["symbol"].name, {"ONE": 0, "J": 1, "MINUS_ONE": 2, "MINUS_J": 3}[u.name]


def conjugates(rep, members, mats):
    f = method(rep, C, "measure_axis")
    g = method(rep, C, "measure")
    for c in members:
        for s in PAULIS:
            want = pauli_of(mat.mm(mat.dag(mats[c]), mat.mm(mat.GATES[s], mats[c])))
            key = f"{c.name}† {s} {c.name}"
            with rep.guard("pauli conjugation", key):
                ax = evalconst(rep, "graphix.clifford", f"Axis.{s}")
                got = read_pauli(apply(rep, f, self=c, **{f.params[1].arg: ax}))
                rep.expect(got == want, "pauli conjugation", key, f.loc(), f"given as i^{got[1]} {got[0]}, but it is i^{want[1]} {want[0]}")
            for k, unit in enumerate(("ONE", "J", "MINUS_ONE", "MINUS_J")):
                with rep.guard("pauli conjugation", f"{key} unit {unit}"):
                    p = evalconst(rep, "graphix.clifford", f"Pauli(Axis.{s}, ComplexUnit.{unit})")
                    got = read_pauli(apply(rep, g, self=c, **{g.params[1].arg: p}))
                    rep.expect(got == (want[0], (want[1] + k) % 4), "pauli conjugation", f"{key} unit {unit}", g.loc(), f"given as i^{got[1]} {got[0]}")
        with rep.guard("pauli conjugation", f"{c.name} identity"):
            p = evalconst(rep, "graphix.clifford", "Pauli(I, ComplexUnit.MINUS_J)")
            got = read_pauli(apply(rep, g, self=c, **{g.params[1].arg: p}))
            rep.expect(got == ("I", 3), "pauli conjugation", f"{c.name} identity", g.loc(), f"the identity becomes i^{got[1]} {got[0]}")


def domains(rep, members, mats):
    f = method(rep, C, "commute_domains")
    s, t = Term("attr", var("domains"), "s_domain"), Term("attr", var("domains"), "t_domain")
    for c in members:
        # X^s Z^t C = C (C† X^s Z^t C)
        img = {n: pauli_of(mat.mm(mat.dag(mats[c]), mat.mm(mat.GATES[n], mats[c])))[0] for n in "XZ"}
        want_s = xor_norm([v for n, v in (("X", s), ("Z", t)) if img[n] in "XY"])
        want_t = xor_norm([v for n, v in (("X", s), ("Z", t)) if img[n] in "ZY"])
        with rep.guard("domains", c.name):
            d = fields(apply(rep, f, self=c))
            rep.expect(tri(d["s_domain"] == want_s and d["t_domain"] == want_t, d["s_domain"], d["t_domain"]), "domains", c.name, f.loc(),
                       f"X^s Z^t commuted with {c.name} gives s={show(d['s_domain'])}, t={show(d['t_domain'])} instead of s={show(want_s)}, t={show(want_t)}")


def decompositions(rep, members, mats):
    hsz, qasm, og = method(rep, C, "hsz"), method(rep, C, "qasm3"), method(rep, C, "to_opengraph")
    for c in members:
        with rep.guard("H/S/Z decomposition", c.name):
            m = mat.eye(2)
            for g in seq(apply(rep, hsz, self=c)):
                m = mat.mm(m, mats[g])
            rep.expect(mat.proportional(m, mats[c]), "H/S/Z decomposition", c.name, hsz.loc(), "the product of the decomposition is not the gate")
        with rep.guard("OpenQASM decomposition", c.name):
            m = mat.eye(2)
            names = seq(apply(rep, qasm, self=c))
            for n in names:
                m = mat.mm({"id": mat.GATES["I"]}.get(n) or mat.GATES[n.upper()], m)
            rep.expect(mat.proportional(m, mats[c]), "OpenQASM decomposition", c.name, qasm.loc(), f"applying {names} in order is not the gate")
        with rep.guard("Pauli measurement decomposition", c.name):
            ms = measured_chain(rep, og, c)
            m = mat.eye(2)
            for axis, sign in ms:
                ang = {"X": Fraction(0), "Y": Fraction(1, 2)}[axis] + (0 if sign == "PLUS" else 1)
                m = mat.mm(mat.rotation("J", -ang), m)
            rep.expect(mat.proportional(m, mats[c]), "Pauli measurement decomposition", c.name, og.loc(), f"measuring {ms} along a path does not implement the gate")


def measured_chain(rep, f, c):
    """Measurements of the open graph of a gate along its path, input to output."""
    d = fields(apply(rep, f, self=c, opaque=lambda g: g.name == "__post_init__"))
    ms = d["measurements"]
    if called(d["graph"])[0] != "path_graph":
        raise AnalysisError("the graph of the decomposition is not a path")
    items = dict_items(ms)
    n = len(items)
    if called(d["graph"])[1].get("0") != n + 1 or seq(d["input_nodes"]) != [0] or seq(d["output_nodes"]) != [n] or sorted(items) != list(range(n)):
        rep.bad("Pauli measurement decomposition", f"{c.name} shape", f.loc(), "the open graph is not the path from the input to the output through the measured nodes")
    return [(fields(items[i])["axis"].name, fields(items[i])["sign"].name) for i in range(n)]
