"""K02: the algebra of signs, complex units, Paulis, axes, planes and planar states."""

from fractions import Fraction

from sa import mat
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation with exact constant folding (matrices over Q(e^{iπ/4}) with symbolic angles)"
RULE = (
    "Each operation on signs, complex units, Paulis, axes, planes and planar states is folded abstractly over its whole finite domain (angles stay symbolic) "
    "and compared with exact arithmetic on the numbers and matrices these objects denote."
)
ASSUMPTIONS = ("numpy literals and elementary functions denote the exact values they are written as",)
F = "graphix.fundamentals."
UNITS = ("ONE", "J", "MINUS_ONE", "MINUS_J")
MODE = {"XY": ("X", "Y"), "YZ": ("Z", "Y"), "XZ": ("Z", "X")}  # axes of cos and sin
ORTH = {"XY": "Z", "YZ": "X", "XZ": "Y"}


def vector(plane, angle):
    """Unit vector (x, y, z) at an angle of a plane, as ring elements."""
    c, s = MODE[plane]
    v = {a: {} for a in "XYZ"}
    q, syms = angle
    e, f = mat.phase(q, syms), mat.phase(-q, {k: -x for k, x in syms.items()})
    half = mat.num(Fraction(1, 2))
    v[c] = mat.mul(mat.add(e, f), half)
    v[s] = mat.mul(mat.mul(mat.add(e, mat.mul(f, mat.num(-1))), half), mat.mul(mat.I_, mat.num(-1)))
    return [v[a] for a in "XYZ"]


def dot_sigma(v):
    m = mat.scale(mat.GATES["X"], v[0])
    m = mat.madd(m, mat.scale(mat.GATES["Y"], v[1]))
    return mat.madd(m, mat.scale(mat.GATES["Z"], v[2]))


def run(rep):
    signs(rep)
    units(rep)
    paulis(rep)
    planes(rep)
    states(rep)
    projectors(rep)
    rep.floor_total(340)


def E(rep, expr, mod="graphix.pauli"):
    return evalconst(rep, mod, expr, mats=True)


def same(rep, rule, construct, loc, got, want):
    rep.expect(got == want, rule, construct, loc, f"gives {show(got)} instead of {show(want)}")


def op(rep, cls, name, self_, *args, **kw):
    m = method(rep, cls, name)
    ps = [p.arg for p in (m.params[1:] if not m.is_static else m.params)]
    a = dict(zip(ps, args)) | kw
    if not m.is_static:
        a["self"] = self_
    return apply(rep, m, mats=True, **a), m.loc()


def signs(rep):
    S = F + "Sign"
    val = {"PLUS": 1, "MINUS": -1}
    sg = {n: E(rep, f"Sign.{n}", F[:-1]) for n in val}
    inv = {v: sg[n] for n, v in val.items()}
    for n, v in val.items():
        for dunder in ("__int__", "__float__", "__complex__"):
            with rep.guard("sign", f"{dunder} {n}"):
                r, loc = op(rep, S, dunder, sg[n])
                same(rep, "sign", f"{dunder} {n}", loc, r, v)
        with rep.guard("sign", f"-{n}"):
            r, loc = op(rep, S, "__neg__", sg[n])
            same(rep, "sign", f"-{n}", loc, r, inv[-v])
        for m, w in val.items():
            with rep.guard("sign", f"{n} * {m}"):
                r, loc = op(rep, S, "__mul__", sg[n], sg[m])
                same(rep, "sign", f"{n} * {m}", loc, r, inv[v * w])
        for k in (3, Fraction(3, 2)):
            for d in ("__mul__", "__rmul__"):
                with rep.guard("sign", f"{n} {d} {k}"):
                    r, loc = op(rep, S, d, sg[n], k)
                    same(rep, "sign", f"{n} {d} {k}", loc, r, v * k)
    for b in (True, False):
        for name, w in (("plus_if", 1 if b else -1), ("minus_if", -1 if b else 1)):
            with rep.guard("sign", f"{name}({b})"):
                r, loc = op(rep, S, name, None, b)
                same(rep, "sign", f"{name}({b})", loc, r, inv[w])


def units(rep):
    U = F + "ComplexUnit"
    us = [E(rep, f"ComplexUnit.{n}", F[:-1]) for n in UNITS]
    sg = {1: E(rep, "Sign.PLUS", F[:-1]), -1: E(rep, "Sign.MINUS", F[:-1])}
    for k, u in enumerate(us):
        with rep.guard("unit", f"complex({UNITS[k]})"):
            r, loc = op(rep, U, "__complex__", u)
            rep.expect(mat.ring(r) == mat.phase(Fraction(k, 2), {}), "unit", f"complex({UNITS[k]})", loc, f"gives {show(r)}")
        with rep.guard("unit", f"-{UNITS[k]}"):
            r, loc = op(rep, U, "__neg__", u)
            same(rep, "unit", f"-{UNITS[k]}", loc, r, us[(k + 2) % 4])
        with rep.guard("unit", f"{UNITS[k]}.sign"):
            r, loc = op(rep, U, "sign", u)
            same(rep, "unit", f"{UNITS[k]}.sign", loc, r, sg[-1 if k >= 2 else 1])
        with rep.guard("unit", f"{UNITS[k]}.is_imag"):
            r, loc = op(rep, U, "is_imag", u)
            rep.expect(r == bool(k % 2), "unit", f"{UNITS[k]}.is_imag", loc, f"gives {show(r)}")
        for j, w in enumerate(us):
            with rep.guard("unit", f"{UNITS[k]} * {UNITS[j]}"):
                r, loc = op(rep, U, "__mul__", u, w)
                same(rep, "unit", f"{UNITS[k]} * {UNITS[j]}", loc, r, us[(k + j) % 4])
    for s in (1, -1):
        for im in (False, True):
            with rep.guard("unit", f"from_properties({s}, {im})"):
                r, loc = op(rep, U, "from_properties", None, sign=sg[s], is_imag=im)
                same(rep, "unit", f"from_properties({s}, {im})", loc, r, us[(0 if s == 1 else 2) + (1 if im else 0)])
    for s in (1, -1):
        for k, u in enumerate(us):
            for e in (f"Sign.{'PLUS' if s == 1 else 'MINUS'} * ComplexUnit.{UNITS[k]}", f"ComplexUnit.{UNITS[k]} * Sign.{'PLUS' if s == 1 else 'MINUS'}"):
                with rep.guard("unit", e):
                    same(rep, "unit", e, rep.prog.cls(U).module.rel, E(rep, e, F[:-1]), us[(k + (0 if s == 1 else 2)) % 4])
    for e, k in (("1", 0), ("1j", 1), ("-1", 2), ("-1j", 3)):
        for j in range(4):
            for ex in (f"{e} * ComplexUnit.{UNITS[j]}", f"ComplexUnit.{UNITS[j]} * ({e})"):
                with rep.guard("unit", ex):
                    same(rep, "unit", ex, rep.prog.cls(U).module.rel, E(rep, ex, F[:-1]), us[(k + j) % 4])


def paulis(rep):
    P = "graphix.pauli.Pauli"
    ps, ms = {}, {}
    for s in "IXYZ":
        for k, u in enumerate(UNITS):
            e = f"Pauli({'I' if s == 'I' else 'Axis.' + s}, ComplexUnit.{u})"
            ps[s, k] = freeze(E(rep, e))
            ms[s, k] = mat.scale(mat.GATES[s], mat.phase(Fraction(k, 2), {}))
            with rep.guard("Pauli", f"matrix {s} {u}"):
                r, loc = op(rep, P, "matrix", E(rep, e))
                rep.expect(mat.meq(mat.matrix(freeze(r)), ms[s, k]), "Pauli", f"matrix {s} {u}", loc, f"gives {show(r)}")
        with rep.guard("Pauli", f"Pauli.{s}"):
            same(rep, "Pauli", f"Pauli.{s}", rep.prog.cls(P).module.rel, freeze(E(rep, f"Pauli.{s}")), ps[s, 0])
        with rep.guard("Pauli", f"Ops.from_ixyz({s})"):
            f = method(rep, "graphix.ops.Ops", "from_ixyz")
            r = apply(rep, f, mats=True, **{f.params[0].arg: E(rep, "I" if s == "I" else f"Axis.{s}")})
            rep.expect(mat.meq(mat.matrix(freeze(r)), mat.GATES[s]), "Pauli", f"Ops.from_ixyz({s})", f.loc(), f"gives {show(r)}")
    inst = lambda s, k: E(rep, f"Pauli({'I' if s == 'I' else 'Axis.' + s}, ComplexUnit.{UNITS[k]})")
    for a in ps:
        with rep.guard("Pauli", f"-{a}"):
            r, loc = op(rep, P, "__neg__", inst(*a))
            same(rep, "Pauli", f"-{a}", loc, freeze(r), ps[a[0], (a[1] + 2) % 4])
        for k in range(4):
            with rep.guard("Pauli", f"{a} * {UNITS[k]}"):
                r, loc = op(rep, P, "__mul__", inst(*a), E(rep, f"ComplexUnit.{UNITS[k]}"))
                same(rep, "Pauli", f"{a} * {UNITS[k]}", loc, freeze(r), ps[a[0], (a[1] + k) % 4])
            with rep.guard("Pauli", f"{UNITS[k]} * {a}"):
                r = E(rep, f"ComplexUnit.{UNITS[k]} * Pauli({'I' if a[0] == 'I' else 'Axis.' + a[0]}, ComplexUnit.{UNITS[a[1]]})")
                same(rep, "Pauli", f"{UNITS[k]} * {a}", rep.prog.cls(P).module.rel, freeze(r), ps[a[0], (a[1] + k) % 4])
    for a in ps:
        for b in ps:
            with rep.guard("Pauli product", f"{a} @ {b}"):
                r, loc = op(rep, P, "__matmul__", inst(*a), inst(*b))
                r = freeze(r)
                got = next((ms[c] for c in ps if ps[c] == r), None)
                rep.expect(got is not None and mat.meq(got, mat.mm(ms[a], ms[b])), "Pauli product", f"{a} @ {b}", loc, f"gives {show(r)}")


def planes(rep):
    P = F + "Plane"
    ax = {n: E(rep, f"Axis.{n}", F[:-1]) for n in "XYZ"}
    pl = {n: E(rep, f"Plane.{n}", F[:-1]) for n in MODE}
    for n, (c, s) in MODE.items():
        for prop, want in (("cos", ax[c]), ("sin", ax[s]), ("orth", ax[ORTH[n]])):
            with rep.guard("plane", f"{n}.{prop}"):
                r, loc = op(rep, P, prop, pl[n])
                same(rep, "plane", f"{n}.{prop}", loc, r, want)
        with rep.guard("plane", f"{n}.axes"):
            r, loc = op(rep, P, "axes", pl[n])
            rep.expect(set(seq(r)) == {ax[c], ax[s]} and len(seq(r)) == 2, "plane", f"{n}.axes", loc, f"gives {show(r)}")
        with rep.guard("plane", f"{n}.polar"):
            r, loc = op(rep, P, "polar", pl[n], var("θ"))
            got = [mat.ring(x) for x in seq(r)]
            rep.expect(got == vector(n, (0, {var("θ"): 1})), "plane", f"{n}.polar", loc, f"gives {show(r)}, not the vector with the cosine along {c} and the sine along {s}")
    for a in "XYZ":
        for b in "XYZ":
            if a != b:
                with rep.guard("plane", f"from_axes({a}, {b})"):
                    r, loc = op(rep, P, "from_axes", None, ax[a], ax[b])
                    same(rep, "plane", f"from_axes({a}, {b})", loc, r, next(pl[n] for n in pl if ORTH[n] not in (a, b)))
    for f in ("angle_to_rad", "rad_to_angle"):
        with rep.guard("angle unit", f):
            g = rep.prog.func(F + f)
            r = apply(rep, g, **{g.params[0].arg: var("θ") if f == "angle_to_rad" else fold(rep, F[:-1], "θ * pi", θ=var("θ"))})
            ok = mat._angle(mat.to_poly(r)) == (0, {var("θ"): 1}) if f == "angle_to_rad" else r == var("θ")
            rep.expect(ok, "angle unit", f, g.loc(), f"gives {show(r)}")


def states(rep):
    PS = "graphix.states.PlanarState"
    for n in MODE:
        with rep.guard("planar state", n):
            f = method(rep, PS, "to_statevector_numpy")
            r = [mat.ring(x) for x in seq(fold(rep, "graphix.states", f"PlanarState(Plane.{n}, θ).to_statevector_numpy()", θ=var("θ")))]
            m = dot_sigma(vector(n, (0, {var("θ"): 1})))
            col = [[x] for x in r]
            norm = mat.mm(mat.dag(col), col)
            rep.expect(mat.meq(mat.mm(m, col), col) and mat.meq(norm, mat.eye(1)), "planar state", n, f.loc(),
                       "the state vector is not the normalised +1 eigenvector of the direction of its angle")
        for k in range(-8, 9):
            q = Fraction(k, 2)
            with rep.guard("planar state", f"{n} {q}"):
                f = method(rep, PS, "to_statevector_numpy")
                col = [[mat.ring(x)] for x in seq(fold(rep, "graphix.states", f"PlanarState(Plane.{n}, θ).to_statevector_numpy()", θ=q))]
                m = dot_sigma(vector(n, (q, {})))
                rep.expect(mat.meq(mat.mm(m, col), col) and mat.meq(mat.mm(mat.dag(col), col), mat.eye(1)), "planar state", f"{n} {q}", f.loc(),
                           f"at angle {q}π, the state vector is not the normalised +1 eigenvector of the direction of its angle")
        with rep.guard("planar state", f"{n} density matrix"):
            r = fold(rep, "graphix.states", f"PlanarState(Plane.{n}, θ).to_densitymatrix_numpy()", θ=var("θ"))
            want = mat.scale(mat.madd(mat.eye(2), dot_sigma(vector(n, (0, {var("θ"): 1})))), mat.num(Fraction(1, 2)))
            f = method(rep, PS, "to_densitymatrix_numpy")
            rep.expect(mat.meq(mat.matrix(freeze(r)), want), "planar state", f"{n} density matrix", f.loc(), "the density matrix is not the projector on the direction of the angle")
    for name, axis, sgn in (("ZERO", "Z", 1), ("ONE", "Z", -1), ("PLUS", "X", 1), ("MINUS", "X", -1), ("PLUS_I", "Y", 1), ("MINUS_I", "Y", -1)):
        with rep.guard("basic state", name):
            v = [[mat.ring(x)] for x in seq(freeze(E(rep, f"BasicStates.{name}.to_statevector_numpy()", "graphix.states")))]
            rep.expect(eigen(v, axis, sgn), "basic state", name, rep.prog.cls("graphix.states.BasicStates").module.rel, f"not an eigenstate of {axis} for {sgn}")
    for axis in "XYZ":
        for b in (0, 1):
            with rep.guard("eigenstate", f"{axis} {b}"):
                v = [[mat.ring(x)] for x in seq(freeze(E(rep, f"Pauli.{axis}.eigenstate({b}).to_statevector_numpy()")))]
                rep.expect(eigen(v, axis, -1 if b else 1), "eigenstate", f"{axis} {b}", method(rep, "graphix.pauli.Pauli", "eigenstate").loc(), f"not the eigenstate of {axis} for (-1)^{b}")


def eigen(v, axis, sgn):
    return mat.meq(mat.mm(mat.GATES[axis], v), mat.scale(v, mat.num(sgn))) and mat.meq(mat.mm(mat.dag(v), v), mat.eye(1))


def projectors(rep):
    f = rep.prog.func("graphix.sim.base_backend._outcome_to_operator_matrix")
    ps = [p.arg for p in f.params]
    for n in MODE:
        vec = v = None
        with rep.guard("projector", n):
            vec, _ = op(rep, F + "Plane", "polar", E(rep, f"Plane.{n}", F[:-1]), var("θ"))
            v = [mat.ring(x) for x in seq(vec)]
        if v is None:
            continue
        for r in (0, 1):
            want = mat.scale(mat.madd(mat.eye(2), mat.scale(dot_sigma(v), mat.num(-1 if r else 1))), mat.num(Fraction(1, 2)))
            for sym in (True, False):
                with rep.guard("projector", f"{n} outcome {r} symbolic {sym}"):
                    got = apply(rep, f, mats=True, **dict(zip(ps, (vec, r, sym))))
                    rep.expect(mat.meq(mat.matrix(freeze(got)), want), "projector", f"{n} outcome {r} symbolic {sym}", f.loc(), f"gives {show(got)[:200]}, not (I + (-1)^r v·σ)/2")
