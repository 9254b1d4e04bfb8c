"""P08: parameters: arithmetic of affine expressions and substitution in every object that holds angles."""

import random
from fractions import Fraction as Fr

from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation (exact folding) of the arithmetic of expressions and of substitution in every container, against the algebra of polynomials of degree one"
RULE = (
    "Placeholders, affine expressions and the objects that hold angles (measurements, patterns, circuits, open graphs, corrections, flows, density matrices) are interpreted on expression trees, assignments and object shapes; results are compared with polynomials of degree one over parameters told apart by identity, and with the same object built directly with the substituted angles. "
    "The original must be as it was unless the operation is in place, in which case it is the object returned; is_parameterized must tell whether an angle is not a number for every kind of command and instruction that holds one; and substitution must commute with transpilation and with the transformations of patterns."
)
ASSUMPTIONS = ("numbers are exact (dyadic)", "expressions of at most three operations over three parameters")
PM = "graphix.parameter"
Q = ("1/2", "-1", "2", "0", "1/4", "-3/2", "1", "3")
NUM = {"1/2": "0.5", "1/4": "0.25", "-3/2": "-1.5"}
PARAMS = ("x", "y", "z")
NEW = 'Placeholder("x"), Placeholder("y"), Placeholder("x")'  # z has the name of x


class Unsupported(Exception):
    def __init__(self, kind):
        self.kind = kind


def aff(a, p, b):
    return (a, p, b) if a != 0 else b


def op2(o, u, v):
    """The value of an operation; a value is a number or (a, parameter, b)."""
    if isinstance(u, tuple) and isinstance(v, tuple):
        if o in "+-":
            if u[1] != v[1]:
                raise Unsupported("PlaceholderOperationError")
            s = 1 if o == "+" else -1
            return aff(u[0] + s * v[0], u[1], u[2] + s * v[2])
        raise Unsupported("TypeError")
    if isinstance(v, tuple):
        if o == "/":
            raise Unsupported("TypeError")
        if o == "*":
            return op2("*", v, u)
        return (v[0] if o == "+" else -v[0], v[1], u + (v[2] if o == "+" else -v[2]))
    if isinstance(u, tuple):
        if o in "+-":
            return (u[0], u[1], u[2] + (v if o == "+" else -v))
        k = v if o == "*" else 1 / v
        return aff(k * u[0], u[1], k * u[2]) if k != 0 else Fr(0)
    return {"+": u + v, "-": u - v, "*": u * v}[o] if o != "/" else u / v


def tree(r, depth):
    """(text, value or the error expected)."""
    if depth == 0 or r.random() < 0.2:
        if r.random() < 0.65:
            p = r.choice(PARAMS if r.random() < 0.3 else PARAMS[:1])
            return p, (Fr(1), p, Fr(0))
        q = r.choice(Q)
        return f"({NUM.get(q, q)})", Fr(q)
    if r.random() < 0.15:
        t, v = tree(r, depth - 1)
        return f"(-{t})", v if isinstance(v, Unsupported) else (-v[0], v[1], -v[2]) if isinstance(v, tuple) else -v
    o = r.choice("++--**/")
    (t1, v1), (t2, v2) = tree(r, depth - 1), tree(r, depth - 1)
    for v in (v1, v2):
        if isinstance(v, Unsupported):
            return f"({t1} {o} {t2})", v
    if o == "/" and v2 == 0:
        o = "+"
    try:
        return f"({t1} {o} {t2})", op2(o, v1, v2)
    except Unsupported as e:
        return f"({t1} {o} {t2})", e


def subst(v, asg):
    """Substitution of values (numbers or affine) for parameters."""
    if isinstance(v, tuple) and v[1] in asg:
        return op2("+", op2("*", asg[v[1]], v[0]), v[2])
    return v


def text(v):
    if isinstance(v, tuple):
        return f"({text(v[0])} * {v[1]} + {text(v[2])})"
    return f"({float(v)})" if v.denominator > 1 else f"({v})"


D = "(lambda e: (e.a, 0 if e.x is x else 1 if e.x is y else 2 if e.x is z else 3, e.b) if isinstance(e, AffineExpression) else e)"


def canon(t, mod=False):
    """Frozen value with affine expressions as (a, identity, b), and angles of measurements modulo a turn when asked."""
    if isinstance(t, Term):
        if t.op == "obj" and str(t.args[0]).endswith("Placeholder"):
            return ("aff", 1, t.args[1], 0)
        if t.op == "new" and str(t.args[0]).endswith("AffineExpression"):
            f = dict(t.args[1])
            if isinstance(f["x"], Term) and f["x"].op == "obj":
                return ("aff", f["a"], f["x"].args[1], f["b"])
        if t.op == "new" and mod and str(t.args[0]).endswith("BlochMeasurement"):
            f = dict(t.args[1])
            a = canon(f["angle"])
            if isinstance(a, tuple) and a and a[0] == "aff":
                a = (*a[:3], a[3] % 2)
            elif is_num(a):
                a = a % 2
            return ("bloch", a, f["plane"])
        return (t.op, *(canon(a, mod) for a in t.args))
    if isinstance(t, frozenset):
        return frozenset(canon(a, mod) for a in t)
    if isinstance(t, (tuple, list)):
        return tuple(canon(a, mod) for a in t)
    return t


def run(rep):
    thorough = rep.tier == "thorough"
    r = random.Random(8)
    cl = rep.prog.cls
    names = {**scope(rep), **{n: cl(f"{PM}.{n}") for n in ("Placeholder", "AffineExpression", "Parameter")}}
    ins = {n: cl(f"graphix.instruction.{n}") for n in ("RX", "RY", "RZ", "RZZ", "J", "H", "CNOT", "SWAP", "CZ", "CCX", "S", "I")}
    ins["MZ"] = cl("graphix.instruction.M")
    names |= ins
    at = lambda c, m: method(rep, c, m).loc()
    fl = lambda f: rep.prog.func(f"{PM}.{f}").loc()
    for m in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__neg__", "with_parameter", "with_parameters", "evaluate", "__eq__"):
        rep.analysed(method(rep, PM + ".AffineExpression", m))
    for f in ("with_parameter", "with_parameters", "cos_sin", "exp", "check_expression_or_complex", "check_expression_or_float"):
        rep.analysed(rep.prog.func(f"{PM}.{f}"))
    arith_at, subst_at, eq_at = at(PM + ".AffineExpression", "__add__"), at(PM + ".AffineExpression", "with_parameter"), at(PM + ".AffineExpression", "__eq__")

    def ev(expr, mod=PM, arrays=True, **kw):
        """The outcome of an expression over the three parameters: a frozen value, or the name of the exception."""
        ps = outcomes(rep, mod, f"(lambda x, y, z: {expr})({NEW})", rec=8, models=True, arrays=arrays, **{**names, **kw})
        if len(ps) != 1:
            raise AnalysisError(f"{len(ps)} outcomes: {[[show(a)[:60] for a, _ in p.guards][:2] for p in ps][:3]}")
        p = ps[0]
        return p.frozen if p.kind == "return" else ("raises", p.value[0])

    def value(v):
        """What D gives for a value."""
        if isinstance(v, tuple):
            return (v[0], PARAMS.index(v[1]), v[2])
        return v

    def same(got, want):
        got = tuple(seq(got)) if isinstance(got, Term) and got.op in ("list", "tuple") else got
        return got == want and (isinstance(got, tuple) == isinstance(want, tuple))

    # arithmetic
    exprs = []
    for i in range(600 if thorough else 150):
        t, v = tree(r, 1 + i % 3)
        if any(t == e for e, _ in exprs):
            continue
        exprs.append((t, v))
    for o in "+-*/":
        for u, v in (("x", "x"), ("x", "y"), ("x", "z"), ("2", "x"), ("x", "2"), ("x", "0.5"), ("0", "x"), ("x", "(-x)"), ("(2 * x + 1)", "(x - 2)"), ("(x + 1)", "(-x)"), ("(2 * x)", "(2 * x + 1)")):
            vals = {"x": (Fr(1), "x", Fr(0)), "y": (Fr(1), "y", Fr(0)), "z": (Fr(1), "z", Fr(0)), "(-x)": (Fr(-1), "x", Fr(0)), "(2 * x + 1)": (Fr(2), "x", Fr(1)), "(x - 2)": (Fr(1), "x", Fr(-2)), "(x + 1)": (Fr(1), "x", Fr(1)), "(2 * x)": (Fr(2), "x", Fr(0))}
            a, b = (vals[w] if w in vals else Fr(w) for w in (u, v))
            try:
                w = op2(o, a, b)
            except Unsupported as e:
                w = e
            exprs.append((f"({u} {o} {v})", w))
    for t, v in exprs:
        with rep.guard("arithmetic", t):
            got = ev(f"({D}({t}), {D}(x), {D}(y))")
            if isinstance(v, Unsupported):
                rep.expect(got == ("raises", v.kind), "arithmetic", t, arith_at, f"{v.kind} is due, but {show(got)[:200]} is given")
            elif isinstance(got, tuple) and got[:1] == ("raises",):
                rep.bad("arithmetic", t, arith_at, f"raises {got[1]}")
            else:
                g = seq(got)
                rep.expect(same(g[0], value(v)) and same(g[1], (1, 0, 0)) and same(g[2], (1, 1, 0)), "arithmetic", t, arith_at, f"gives {show(g[0])[:200]} instead of {value(v)}")
    for t in ("x + 'a'", "x + 1j", "1j - x", "x * 1j", "x ** 2", "x / y"):
        with rep.guard("arithmetic", t):
            got = ev(f"{D}({t})")
            rep.expect(got == ("raises", "TypeError"), "arithmetic", t, arith_at, f"TypeError is due, but {show(got)[:200]} is given")

    # equality
    good = [(t, v) for t, v in exprs if not isinstance(v, Unsupported)]
    affine = [(t, v) for t, v in good if isinstance(v, tuple)]
    for i in range(len(good)):
        t, v = affine[i % len(affine)]
        k = r.random()
        if k < 0.4:
            u, w = text(v), v
        elif k < 0.6:
            u, w = r.choice(affine)
        elif k < 0.8:
            w = (v[0], {"x": "z", "z": "x", "y": "x"}[v[1]], v[2])
            u = text(w)
        else:
            w = r.choice(((v[0] + 1, v[1], v[2]), (v[0], v[1], v[2] + 1), v[2]))
            u = text(w)
        with rep.guard("equality", f"{t} and {u}"):
            got = seq(ev(f"({t} == {u}, {u} == {t}, {t} != {u})"))
            rep.expect(list(got) == [v == w, v == w, v != w], "equality", f"{t} and {u}", eq_at, f"{[show(g) for g in got]} is given where they are {'equal' if v == w else 'different'}")
    with rep.guard("equality", "placeholders"):
        got = seq(ev("(x == x, x == z, x == y, x != z, x == 1 * x, 1 * x == x, 1 * x == z, 2 * x == x, x + 1 == x, len({x: 1, y: 2, z: 3}), {x: 1, y: 2, z: 3}[z])"))
        rep.expect(list(got) == [True, False, False, True, True, True, False, False, False, 3, 3], "equality", "placeholders", eq_at, f"parameters are not told apart by identity: {[show(g) for g in got]}")

    # substitution in expressions
    repl = [("0", Fr(0)), ("0.25", Fr(1, 4)), ("3", Fr(3)), ("x", (Fr(1), "x", Fr(0))), ("y", (Fr(1), "y", Fr(0))), ("z", (Fr(1), "z", Fr(0))), ("(2 * y - 1)", (Fr(2), "y", Fr(-1))), ("(-0.5 * x + 2)", (Fr(-1, 2), "x", Fr(2)))]
    for i, (t, v) in enumerate(affine):
        s, sv = repl[i % len(repl)]
        for p in PARAMS if thorough else (PARAMS[i % 3], v[1]):
            want = value(subst(v, {p: sv}))
            key = f"{p} := {s} in {t}"
            with rep.guard("substitution", key):
                got = seq(ev(f"(lambda e: ({D}(e.with_parameter({p}, {s})), {D}(e.subs({p}, {s})), {D}(with_parameter(e, {p}, {s})), {D}(with_parameters(e, {{{p}: {s}}})), {D}(e)))({t})"))
                rep.expect(all(same(g, want) for g in got[:4]) and same(got[4], value(v)), "substitution", key, subst_at, f"gives {[show(g)[:60] for g in got]} instead of {want}")
        asg = {p: repl[(i * 5 + 3 * j) % len(repl)] for j, p in enumerate(PARAMS) if (i + j) % 4}
        if i % 5 == 0:
            asg = {"x": repl[4], "y": repl[3]}
        want = value(subst(v, {p: w for p, (_, w) in asg.items()}))
        d = "{" + ", ".join(f"{p}: {s}" for p, (s, _) in asg.items()) + "}"
        key = f"{d} in {t}"
        with rep.guard("substitution", key):
            got = seq(ev(f"(lambda e: ({D}(e.with_parameters({d})), {D}(e.xreplace({d})), {D}(with_parameters(e, {d}))))({t})"))
            rep.expect(all(same(g, want) for g in got), "substitution", key, at(PM + ".AffineExpression", "with_parameters"), f"gives {[show(g)[:60] for g in got]} instead of {want}")
    for expr, want in (
        ("with_parameter(x, x, 0.5 + 0j)", Fr(1, 2)), ("with_parameters(x, {x: 0.5 + 0j})", Fr(1, 2)), ("with_parameter(3, x, 5)", 3), ("with_parameter('a', x, 5)", "a"), ("with_parameters(0.5, {x: 5})", Fr(1, 2)),
        ("with_parameters(None, {x: 5}) is None", True), ("check_expression_or_float(x) is x", True), ("check_expression_or_complex(x) is x", True), ("check_expression_or_float(0.25)", Fr(1, 4)), ("check_expression_or_complex(0.25)", Fr(1, 4)),
        ("check_expression_or_float('a')", "TypeError"), ("check_expression_or_float(1j)", "TypeError"), ("check_expression_or_complex('a')", "TypeError"), ("cos_sin(x)", "PlaceholderOperationError"), ("cos_sin(2 * x + 1)", "PlaceholderOperationError"), ("exp(x)", "PlaceholderOperationError"),
    ):
        with rep.guard("functions", expr):
            got = ev(expr)
            ok = got == ("raises", want) if isinstance(want, str) and want.endswith("Error") else got == want
            rep.expect(ok, "functions", expr, fl(expr.split("(")[0]), f"gives {show(got)[:200]} instead of {want}")
    with rep.guard("functions", "complex"):
        got = seq(ev("(with_parameter(x, x, 0.5 + 1j), with_parameters(2 * x, {x: 1j}), 0.5 + 1j, 2j)"))
        rep.expect(got[0] == got[2] and got[1] == got[3], "functions", "complex", fl("with_parameter"), f"complex results become {show(got[0])[:80]} and {show(got[1])[:80]}")

    # containers: the same source with the angles replaced
    angles = [(t, v) for t, v in affine if len(t) < 28]

    def draw(n):
        out = [r.choice(angles) if r.random() < 0.75 else ("0.25", Fr(1, 4)) for _ in range(n)]
        if not any(isinstance(v, tuple) for _, v in out):
            out[0] = ("x", (Fr(1), "x", Fr(0)))
        return out

    PAT = "(lambda p: (p.reorder_output_nodes([7, 4]), p)[1])(Pattern(input_nodes=[0, 5], cmds=[N(1), E((0, 1)), M(0, Measurement.XY({0})), N(2, BasicStates.ZERO), E((1, 2)), M(5, Measurement.X), M(1, Measurement.XZ({1}), {{0}}, {{5}}), X(2, {{0}}), N(4), N(7), E((2, 4)), M(2, Measurement.YZ({2}), {{1}}), Z(4, {{2}}), C(7, Clifford.H), X(7, {{2, 0}})]))"
    CIRC = "Circuit(3, [RX(0, {0}), H(1), RZZ(0, 1, {1}), CNOT(2, 0), J(1, {2}), RY(2, {3}), S(0), RZ(1, {4}), SWAP((0, 2)), CZ((1, 2))])"
    MCIRC = "Circuit(2, [RX(0, {0}), MZ(0, Axis.Z), RZ(1, {1})])"
    OG = "OpenGraph(nx.Graph([(3, 1), (1, 0), (0, 2)]), [3], [2], {{0: Measurement.XY({0}), 1: Measurement.XY({1}), 3: Measurement.XY({2})}}, {{2: Clifford.S}})"
    OGX = "OpenGraph(nx.Graph([(3, 1), (1, 0), (0, 2)]), [3], [2], {{0: Measurement.XY({0}), 1: -Measurement.Y, 3: Measurement.XY({1})}})"
    shapes = (
        ("pattern", "graphix.pattern", PAT, 3, "(lambda q: (list(q), q.input_nodes, q.output_nodes))", True, "graphix.pattern.Pattern"),
        ("circuit", "graphix.transpiler", CIRC, 5, "(lambda q: (q.instruction, q.width, q.active_qubits))", True, "graphix.transpiler.Circuit"),
        ("measured circuit", "graphix.transpiler", MCIRC, 2, "(lambda q: (q.instruction, q.width, q.active_qubits))", True, "graphix.transpiler.Circuit"),
        *((f"measurement {n}", "graphix.opengraph", f"Measurement.{n}({{0}})", 1, "(lambda q: (q.plane, q.angle))", False, "graphix.measurements.BlochMeasurement") for n in ("XY", "XZ", "YZ")),
        ("measurement X", "graphix.opengraph", "(-Measurement.X)", 0, "(lambda q: (q.axis, q.sign))", False, "graphix.measurements.PauliMeasurement"),
        ("open graph", "graphix.opengraph", OG, 3, "(lambda q: (sorted(q.graph.nodes), sorted(map(sorted, q.graph.edges)), q.input_nodes, q.output_nodes, q.measurements, q.output_cliffords))", False, "graphix.opengraph.OpenGraph"),
        ("corrections", "graphix.opengraph", f"{OG}.to_causalflow().to_xzcorrections()", 3, "(lambda q: (q.og.measurements, q.og.output_cliffords, q.x_corrections, q.z_corrections, q.partial_order_layers, type(q).__name__))", False, "graphix.flow.core.XZCorrections"),
        ("causal flow", "graphix.opengraph", f"{OG}.to_causalflow()", 3, "(lambda q: (q.og.measurements, q.og.output_cliffords, q.correction_function, q.partial_order_layers, type(q).__name__))", False, "graphix.flow.core.PauliFlow"),
        ("Pauli flow", "graphix.opengraph", f"{OGX}.to_pauliflow()", 2, "(lambda q: (q.og.measurements, q.correction_function, q.partial_order_layers, type(q).__name__))", False, "graphix.flow.core.PauliFlow"),
    )
    assignments = [
        {"x": ("0", Fr(0))}, {"x": ("0.25", Fr(1, 4))}, {"y": ("(-0.5 * x + 2)", repl[7][1])}, {"z": ("0.5", Fr(1, 2))}, {"x": ("y", repl[4][1]), "y": ("x", repl[3][1])}, {},
        {"x": ("0.25", Fr(1, 4)), "y": ("0", Fr(0)), "z": ("-1", Fr(-1))}, {"x": ("z", repl[5][1]), "z": ("0.125", Fr(1, 8))}, {"x": ("(2 * x)", (Fr(2), "x", Fr(0)))}]
    for what, mod, src, n, desc, inplace, cname in shapes:
        for i, asg in enumerate(assignments * (3 if thorough else 1)):
            ang = draw(n) if n else []
            before, after = src.format(*(t for t, _ in ang)), src.format(*(text(subst(v, {p: w for p, (_, w) in asg.items()})) for _, v in ang))
            d = "{" + ", ".join(f"{p}: {s}" for p, (s, _) in asg.items()) + "}"
            single = len(asg) == 1
            p, s = next(((p, s) for p, (s, _) in asg.items()), (None, None))
            calls_ = [f"o.with_parameters({d})", f"o.xreplace({d})"] + ([f"o.with_parameter({p}, {s})", f"o.subs({p}, {s})"] if single else [])
            if inplace:
                calls_ += [f"o.replace_parameters({d}, copy=True)"] + ([f"o.replace_parameter({p}, {s}, copy=True)"] if single else [])
                places = [f"o.replace_parameters({d})"] + ([f"o.replace_parameter({p}, {s})"] if single else [])
            else:
                places = []
            if not (thorough or i < 2):
                calls_ = [calls_[i % len(calls_)]]
            for c in calls_:
                key = f"{what}: {c[2:]}, angles {[t for t, _ in ang]}"
                with rep.guard("container", key):
                    got = ev(f"(lambda o, w, g: (lambda n: (g(n), g(w), g(o), g({before}), n is o))({c}))({before}, {after}, {desc})", mod)
                    if isinstance(got, tuple) and got[:1] == ("raises",):
                        rep.bad("container", key, at(cname, c[2:].split("(")[0]), f"raises {got[1]}")
                        continue
                    g = seq(got)
                    new, want, old, old0 = map(canon, g[:4])
                    why = "the result is not the object with the substituted angles" if new != want else "the original is changed" if old != old0 else "the original is returned where a copy is due" if inplace and g[4] is not False else None
                    rep.expect(why is None, "container", key, at(cname, c[2:].split("(")[0]), f"{why}: {show(g[0])[:300]}")
            for c in places:
                key = f"{what}: {c[2:]} in place, angles {[t for t, _ in ang]}"
                with rep.guard("container", key):
                    got = ev(f"(lambda o, w, g: (lambda n: (g(o), g(w), n is o))({c}))({before}, {after}, {desc})", mod)
                    if isinstance(got, tuple) and got[:1] == ("raises",):
                        rep.bad("container", key, at(cname, c[2:].split("(")[0]), f"raises {got[1]}")
                        continue
                    g = seq(got)
                    why = "the object does not have the substituted angles" if canon(g[0]) != canon(g[1]) else "the object itself is not returned" if g[2] is not True else None
                    rep.expect(why is None, "container", key, at(cname, c[2:].split("(")[0]), f"{why}: {show(g[0])[:300]}")

    # density matrices
    dm = "graphix.sim.density_matrix"
    elements = [("0.5", Fr(1, 2)), ("1j", None), ("0", Fr(0)), *[a for a in angles if len(a[0]) < 14][:9], ("(0.5 - 0.25j)", None)]
    for i in range(40 if thorough else 14):
        el = [r.choice(elements) for _ in range(4)]
        if not any(isinstance(v, tuple) for _, v in el):
            el[r.randrange(4)] = ("x", repl[3][1])
        asg = assignments[i % len(assignments)]
        d = "{" + ", ".join(f"{p}: {s}" for p, (s, _) in asg.items()) + "}"
        res = [t if v is None else text(subst(v, {p: w for p, (_, w) in asg.items()})) for t, v in el]
        p, s = next(((p, s) for p, (s, _) in asg.items()), (None, None))
        how = f"replace_parameter({p}, {s}" if len(asg) == 1 and i % 2 else f"replace_parameters({d}"
        for copy in (True, False):
            key = f"[{', '.join(t for t, _ in el)}]: {how}, copy={copy})"
            with rep.guard("density matrix", key):
                got = ev(f"(lambda o: (lambda n: (n.rho.tolist(), o.rho.tolist(), [[{res[0]}, {res[1]}], [{res[2]}, {res[3]}]], [[{el[0][0]}, {el[1][0]}], [{el[2][0]}, {el[3][0]}]], n is o))(o.{how}, copy={copy})))(DensityMatrix([[{el[0][0]}, {el[1][0]}], [{el[2][0]}, {el[3][0]}]]))", dm, arrays=True)
                loc = at(dm + ".DensityMatrix", how.split("(")[0])
                if isinstance(got, tuple) and got[:1] == ("raises",):
                    rep.bad("density matrix", key, loc, f"raises {got[1]}")
                    continue
                g = seq(got)
                new, old, want, old0 = map(canon, g[:4])
                why = "the elements are not the substituted ones" if new != want else None if (old == (old0 if copy else want) and g[4] is not copy) else "the original is changed" if copy else "the object itself is not changed"
                rep.expect(why is None, "density matrix", key, loc, f"{why}: {show(g[0])[:200]}")

    # is_parameterized
    ip = at("graphix.pattern.Pattern", "is_parameterized")
    kinds = [(k, e) for k in ("XY", "XZ", "YZ") for e in ("x", "(2 * y - 1)", "0.25", "0", "(x - x)")] + [("X", None), ("Y", None), ("Z", None)]
    for k, e in kinds:
        m = f"M(1, Measurement.{k}({e}))" if e else f"M(1, Measurement.{k})"
        for cmds in (f"[{m}]", f"[N(2), {m}, X(2, {{1}})]", f"[M(0, Measurement.XY(0.5)), {m}]", f"[{m}, M(0, Measurement.X)]"):
            with rep.guard("is_parameterized", cmds):
                got = ev(f"Pattern(input_nodes=[0, 1], cmds={cmds}).is_parameterized()", "graphix.pattern")
                want = e in ("x", "(2 * y - 1)")
                rep.expect(got is want, "is_parameterized", cmds, ip, f"gives {show(got)[:100]}")
    ic = at("graphix.transpiler.Circuit", "is_parameterized")
    for k in ("RX", "RY", "RZ", "J", "RZZ"):
        for e, want in (("x", True), ("(2 * y - 1)", True), ("0.25", False), ("0", False)):
            c = f"RZZ(0, 1, {e})" if k == "RZZ" else f"{k}(0, {e})"
            for cs in (f"[{c}]", f"[H(0), {c}, CNOT(0, 1)]", f"[RX(1, 0.5), {c}]", f"[{c}, RZ(0, 0.5), MZ(0, Axis.Z)]"):
                with rep.guard("is_parameterized", cs):
                    got = ev(f"(lambda c: (c.is_parameterized(), c.with_parameters({{x: 0, y: 0.5}}).is_parameterized(), c.with_parameter(z, 1).is_parameterized()))(Circuit(2, {cs}))", "graphix.transpiler")
                    rep.expect(tuple(seq(got)) == (want, False, want), "is_parameterized", cs, ic, f"gives {show(got)[:100]}")
    for cs in ("[]", "[H(0), CNOT(0, 1), SWAP((0, 1)), CZ((0, 1)), S(0), I(1), MZ(0, Axis.X)]"):
        with rep.guard("is_parameterized", cs):
            rep.expect(ev(f"Circuit(2, {cs}).is_parameterized()", "graphix.transpiler") is False, "is_parameterized", cs, ic, "is true without angles")

    # substitution commutes with the transformations
    trans = [
        ("circuit", "graphix.transpiler", CIRC, 5, t, "(lambda q: (list(q), q.input_nodes, q.output_nodes))") for t in ("o.transpile().pattern", "o.transpile(transpile_swaps=False).pattern")
    ] + [("circuit", "graphix.transpiler", CIRC, 5, "o.transpile_j_to_rzh()", "(lambda q: q.instruction)"), ("circuit", "graphix.transpiler", CIRC, 5, "o.transpile_measurements_to_z_axis()", "(lambda q: q.instruction)")] + [
        ("pattern", "graphix.pattern", PAT, 3, t, "(lambda q: (list(q), q.input_nodes, q.output_nodes))")
        for t in ("(o.standardize(), o)[1]", "(o.shift_signals(), o)[1]", "(o.minimize_space(), o)[1]", "o.remove_local_clifford_commands(copy=True)", "o.blochify(copy=True)", "o.perform_pauli_pushing(copy=True)", "o.reindex(copy=True)", "o.copy()", "(o.remove_input_nodes(), o)[1]", "(o.parallelize_pattern(), o)[1]")
    ] + [("pattern", "graphix.pattern", PAT.replace(", BasicStates.ZERO", "").replace("C(7, Clifford.H), X(7, {{2, 0}})", "X(7, {{2, 0}}), C(7, Clifford.H)"), 3, "o.to_opengraph()", "(lambda q: q.measurements)")]
    for what, mod, src, n, t, desc in trans:
        for asg in assignments[1:8:2] if not thorough else assignments:
            ang = draw(n)
            before = src.format(*(t_ for t_, _ in ang))
            d = "{" + ", ".join(f"{p}: {s}" for p, (s, _) in asg.items()) + "}"
            key = f"{what}: {t}, {d}, angles {[t_ for t_, _ in ang]}"
            with rep.guard("commutation", key):
                f = f"(lambda o: {t})"
                got = ev(f"(lambda f, g: (g(f({before}).with_parameters({d})), g(f({before}.with_parameters({d})))))({f}, {desc})", mod)
                if isinstance(got, tuple) and got[:1] == ("raises",):
                    rep.bad("commutation", key, at("graphix.transpiler.Circuit" if what == "circuit" else "graphix.pattern.Pattern", "replace_parameters"), f"raises {got[1]}")
                    continue
                a, b = (canon(v, True) for v in seq(got))
                rep.expect(a == b, "commutation", key, at("graphix.transpiler.Circuit" if what == "circuit" else "graphix.pattern.Pattern", "replace_parameters"), f"substitution afterwards gives {show(seq(got)[0])[:200]} but beforehand {show(seq(got)[1])[:200]}")
    for rule, n in (("arithmetic", 150), ("equality", 50), ("substitution", 120), ("functions", 15), ("container", 100), ("density matrix", 20), ("is_parameterized", 100), ("commutation", 40)):
        rep.floor(rule, n)
