"""K04: measurement descriptions and what a Clifford gate makes of them."""

from fractions import Fraction

from sa import mat
from sa.h import *

from .k02 import MODE, dot_sigma, vector

TECHNIQUE = "static analysis: abstract interpretation with exact constant folding (matrices over Q(e^{iπ/4}) with symbolic angles), all paths"
RULE = (
    "Every conversion of a measurement (Bloch to Pauli, Pauli to Bloch, negation) and its conjugation by each of the 24 Clifford gates is folded abstractly, with a symbolic angle and on every path, "
    "and the observable it denotes is compared exactly with the one it must denote."
)
ASSUMPTIONS = ("numpy literals and elementary functions denote the exact values they are written as",)
MM = "graphix.measurements"
B_, P_ = MM + ".BlochMeasurement", MM + ".PauliMeasurement"
θ = var("θ")


def run(rep):
    cls = rep.prog.cls("graphix.clifford.Clifford")
    members = [EnumVal(cls, n) for n in cls.enum_members()]
    mats = {}
    for c in members:
        with rep.guard("Clifford", c.name):
            mats[c] = mat.matrix(freeze(apply(rep, method(rep, cls.qual, "matrix"), mats=True, self=c)))
    bloch_clifford(rep, mats)
    pauli_clifford(rep, mats)
    plane_clifford(rep, mats)
    conversions(rep)
    rep.floor_total(300)


def observable(t):
    """Exact matrix of the observable a measurement denotes."""
    d = fields(t)
    if "sign" in d:
        return mat.scale(mat.GATES[d["axis"].name], mat.num({"PLUS": 1, "MINUS": -1}[d["sign"].name]))
    return dot_sigma(vector(d["plane"].name, affine(d["angle"])))


def affine(t):
    """(constant, {symbol: coefficient}) of an angle, modulo 2."""
    if isinstance(t, Term) and t.op == "mod" and is_num(t.args[1]) and t.args[1] % 2 == 0:
        t = t.args[0]
    q, syms = Fraction(0), {}
    for mono, c in mat.to_poly(t).items():
        if mono == ():
            q += c
        elif len(mono) == 1 and mono[0][1] == 1:
            syms[mono[0][0]] = syms.get(mono[0][0], 0) + c
        else:
            raise AnalysisError(f"angle {show(t)} out of reach")
    return q, syms


def conj(m, c):
    return mat.mm(mat.dag(c), mat.mm(m, c))


def inst(rep, expr, **kw):
    return fold(rep, MM, expr, **kw)


def bloch_clifford(rep, mats):
    f = method(rep, B_, "clifford")
    rep.analysed(f)
    for n in MODE:
        for c, m in mats.items():
            key = f"{n}(θ) under {c.name}"
            with rep.guard("Bloch measurement", key):
                ai_paths = paths(rep, f"Measurement.{n}(θ).clifford(c)", θ=θ, c=c)
                want = conj(dot_sigma(vector(n, (0, {θ: 1}))), m)
                for p in ai_paths:
                    got = fields(p.frozen)
                    rep.expect(mat.meq(observable(p.frozen), want), "Bloch measurement", key, f.loc(),
                               f"gives {show(p.frozen)} when {show_guards(p.guards)}, whose observable is not C† M C")
                    numeric = not any(isinstance(g, Term) and g.op == "isinst" and "float" in g.args[1] and v is False for g, v in p.guards)
                    if numeric:
                        ok = in_range(got["angle"], p.guards)
                        rep.expect(ok, "angle range", key, f.loc(), f"gives the angle {show(got['angle'])} when {show_guards(p.guards)}, which leaves [0, 2) for some θ in [0, 2)")


def paths(rep, expr, **kw):
    ai = B.AI(rep.prog)
    ai.hooks["graphix.utils.lock"] = lock_hook
    ps = ai.explore(lam(rep, MM, expr, *kw), kw)
    if not ps or any(p.kind != "return" for p in ps):
        raise AnalysisError(f"{expr} does not always return")
    return ps


def in_range(t, guards):
    """Whether a·θ + b stays in [0, 2) for θ in [0, 2) under the linear guards on θ."""
    if isinstance(t, Term) and t.op == "mod" and t.args[1] == 2:
        return True
    q, s = affine(t)
    if set(s) - {θ} or abs(s.get(θ, 0)) != 1:
        return None
    a = s[θ]
    lo, lo_in, hi, hi_in = Fraction(0), True, Fraction(2), False  # interval of θ
    for g, v in guards:
        while isinstance(g, Term) and g.op == "not":
            g, v = g.args[0], not v
        if not (isinstance(g, Term) and g.op == "lt0"):
            if θ in subterms(g) and not (isinstance(g, Term) and g.op == "isinst"):
                return None
            continue
        l = linear_less(g)
        if l is None:
            return None
        k, b = l  # k·θ + b < 0 when v else >= 0
        bound = Fraction(-b) / k
        upper = (k > 0) == v
        strict = v
        if upper and (bound < hi or bound == hi and strict):
            hi, hi_in = bound, not strict
        if not upper and (bound > lo or bound == lo and strict):
            lo, lo_in = bound, not strict
    if lo > hi or lo == hi and not (lo_in and hi_in):
        return True
    ends = sorted([(a * lo + q, lo_in), (a * hi + q, hi_in)])
    (m, _), (x, xin) = ends
    return m >= 0 and (x < 2 or x == 2 and not xin)


def linear_less(g):
    q, syms = affine(g.args[0])
    return (syms[θ], q) if set(syms) == {θ} and syms[θ] else None


def pauli_clifford(rep, mats):
    f = method(rep, P_, "clifford")
    for axis in "XYZ":
        for sgn in ("PLUS", "MINUS"):
            p = inst(rep, f"PauliMeasurement(Axis.{axis}, Sign.{sgn})")
            for c, m in mats.items():
                key = f"{sgn} {axis} under {c.name}"
                with rep.guard("Pauli measurement", key):
                    r = inst(rep, f"PauliMeasurement(Axis.{axis}, Sign.{sgn}).clifford(c)", c=c)
                    rep.expect(mat.meq(observable(r), conj(observable(p), m)), "Pauli measurement", key, f.loc(), f"gives {show(r)}")


def plane_clifford(rep, mats):
    F = "graphix.fundamentals"
    for c, m in mats.items():
        for n, (x, y) in MODE.items():
            with rep.guard("plane under Clifford", f"{n} {c.name}"):
                f = method(rep, F + ".Plane", "clifford")
                r = fold(rep, F, f"Plane.{n}.clifford(c)", c=c)
                axes = {next(a for a in "XYZ" if mat.proportional(conj(mat.GATES[b], m), mat.GATES[a])) for b in (x, y)}
                rep.expect(isinstance(r, EnumVal) and set(MODE[r.name]) == axes, "plane under Clifford", f"{n} {c.name}", f.loc(), f"gives {show(r)}")
        for b in "XYZ":
            with rep.guard("axis under Clifford", f"{b} {c.name}"):
                f = method(rep, F + ".Axis", "clifford")
                r = fold(rep, F, f"Axis.{b}.clifford(c)", c=c)
                rep.expect(isinstance(r, EnumVal) and mat.proportional(conj(mat.GATES[b], m), mat.GATES[r.name]), "axis under Clifford", f"{b} {c.name}", f.loc(), f"gives {show(r)}")


def conversions(rep):
    to_bloch, neg = method(rep, P_, "to_bloch"), method(rep, P_, "__neg__")
    for axis in "XYZ":
        for sgn in ("PLUS", "MINUS"):
            e = f"PauliMeasurement(Axis.{axis}, Sign.{sgn})"
            p = inst(rep, e)
            with rep.guard("to Bloch", f"{sgn} {axis}"):
                r = inst(rep, e + ".to_bloch()")
                rep.expect("plane" in fields(r) and mat.meq(observable(r), observable(p)), "to Bloch", f"{sgn} {axis}", to_bloch.loc(), f"gives {show(r)}")
            with rep.guard("negation", f"{sgn} {axis}"):
                r = inst(rep, f"-{e}")
                rep.expect(mat.meq(observable(r), mat.scale(observable(p), mat.num(-1))), "negation", f"{sgn} {axis}", neg.loc(), f"gives {show(r)}")
            with rep.guard("to Pauli gate", f"{sgn} {axis}"):
                r = fields(inst(rep, f"{e}.to_pauli()"))
                rep.expect(r["symbol"].name == axis and r["unit"].name == ("ONE" if sgn == "PLUS" else "MINUS_ONE"), "to Pauli gate", f"{sgn} {axis}",
                           method(rep, P_, "to_pauli").loc(), f"gives {show(r)}")
            for g in ("to_pauli_or_none()", "to_pauli_or_bloch()"):
                with rep.guard("to Pauli", f"{g} {sgn} {axis}"):
                    r = inst(rep, f"{e}.{g}")
                    rep.expect(r == p, "to Pauli", f"{g} {sgn} {axis}", method(rep, P_, g[:-2]).loc(), f"gives {show(r)}")
            with rep.guard("axis", f"{sgn} {axis}"):
                r = inst(rep, f"{e}.to_plane_or_axis()")
                rep.expect(isinstance(r, EnumVal) and r.name == axis, "axis", f"{sgn} {axis}", method(rep, P_, "to_plane_or_axis").loc(), f"gives {show(r)}")
    f = method(rep, B_, "to_pauli_or_none")
    for n in MODE:
        for k in (*range(-8, 9), 1000, -999):
            a = Fraction(k, 2)
            for num in {a, int(a)} if a.denominator == 1 else {a}:
                with rep.guard("to Pauli", f"{n}({a})"):
                    b = inst(rep, f"Measurement.{n}(θ)", θ=num)
                    r = inst(rep, f"Measurement.{n}(θ).to_pauli_or_none()", θ=num)
                    rep.expect(r is not None and mat.meq(observable(r), observable(b)), "to Pauli", f"{n}({a})", f.loc(), f"gives {show(r)}")
                    r2 = inst(rep, f"Measurement.{n}(θ).to_pauli_or_bloch()", θ=num)
                    rep.expect(r2 == r, "to Pauli", f"{n}({a}) or Bloch", method(rep, B_, "to_pauli_or_bloch").loc(), f"gives {show(r2)}")
        for a in (Fraction(1, 4), Fraction(-7, 4), Fraction(5, 8), Fraction(1, 3)):
            with rep.guard("to Pauli", f"{n}({a})"):
                r = inst(rep, f"Measurement.{n}(θ).to_pauli_or_none()", θ=a)
                rep.expect(r is None, "to Pauli", f"{n}({a})", f.loc(), f"gives {show(r)} for an angle which is not a multiple of 1/2")
                r = inst(rep, f"Measurement.{n}(θ).to_pauli_or_bloch()", θ=a)
                rep.expect(r == inst(rep, f"Measurement.{n}(θ)", θ=a), "to Pauli", f"{n}({a}) or Bloch", method(rep, B_, "to_pauli_or_bloch").loc(), f"gives {show(r)}")
        for g in ("to_bloch", "downcast_bloch"):
            with rep.guard("Bloch form", f"{g} {n}"):
                r = inst(rep, f"Measurement.{n}(θ).{g}()", θ=θ)
                rep.expect(r == inst(rep, f"Measurement.{n}(θ)", θ=θ), "Bloch form", f"{g} {n}", method(rep, B_, g).loc(), f"gives {show(r)}")
        for g in ("to_plane", "to_plane_or_axis"):
            with rep.guard("plane", f"{g} {n}"):
                r = inst(rep, f"Measurement.{n}(θ).{g}()", θ=θ)
                rep.expect(isinstance(r, EnumVal) and r.name == n, "plane", f"{g} {n}", method(rep, B_, g).loc(), f"gives {show(r)}")
    for b in (True, False):
        with rep.guard("outcome", f"outcome({b})"):
            r = inst(rep, f"outcome({b})")
            rep.expect(r == int(b), "outcome", f"outcome({b})", rep.prog.func(MM + ".outcome").loc(), f"gives {show(r)}")
        with rep.guard("outcome", f"toggle_outcome({int(b)})"):
            r = inst(rep, f"toggle_outcome({int(b)})")
            rep.expect(r == 1 - int(b), "outcome", f"toggle_outcome({int(b)})", rep.prog.func(MM + ".toggle_outcome").loc(), f"gives {show(r)}")
