"""P05: standardising a pattern keeps what every branch does, and puts commands in standard order."""

from itertools import product as cartesian

from rules.g01 import ALPHA
from sa import branch as Br
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the standardisation on known command lists with symbolic angles; exact branch semantics before and after"
RULE = (
    "Standardisation is interpreted abstractly on patterns of known shape: every ordered pair of commands it commutes (each of the 24 Clifford gates, X and Z corrections with overlapping domains, entanglements on either side, measurements of each plane and axis), and longer sequences. "
    "The exact linear map of each outcome branch of the result must be the one of the original, up to a scalar, with the same probability; the result must be in standard order, with at most one X, Z and C per node, and the original must be left alone. is_standard is folded on every sequence of command kinds up to four."
)
ASSUMPTIONS = ("the model of networkx graphs in sa/models", "patterns of at most four interacting nodes")
P = "graphix.pattern"
BETA = Term("var", "beta", typ=("prim", "float"))
PRE = "N(8), N(9), M(8, Measurement.XY(beta)), M(9, Measurement.XY(beta))"
MEAS = ["Measurement.XY(alpha)", "Measurement.XZ(alpha)", "Measurement.YZ(alpha)", "Measurement.X", "Measurement.Y", "Measurement.Z", "-Measurement.X", "-Measurement.Y", "-Measurement.Z"]
DIAGONAL = []  # Clifford gates which commute with Z up to a sign
ORDER = {"N": 0, "E": 1, "M": 2, "X": 3, "Z": 3, "C": 4}


def gates(rep):
    n = int(fold(rep, "graphix.clifford", "len(Clifford)"))
    return [f"Clifford({i})" for i in range(n)]


def keeps_z(rep, cl, g):
    m = cl(fold(rep, "graphix.clifford", g))
    off = [bool(m[0][1]), bool(m[1][0])]
    dia = [bool(m[0][0]), bool(m[1][1])]
    return not any(off) or not any(dia)


def bodies(rep, cl, thorough):
    """(rule, body, whether there is a standard form)."""
    gs = gates(rep)
    good = [g for g in gs if keeps_z(rep, cl, g)]
    for g in gs:
        ok = g in good
        yield "C then E", f"C(0, {g}), E((0, 1))", ok
        yield "C then E", f"C(1, {g}), E((0, 1))", ok
        yield "C then correction", f"C(0, {g}), X(0, {{8}})", True
        yield "C then correction", f"C(0, {g}), Z(0, {{8}})", True
        yield "C then correction", f"Z(0, {{9}}), X(0, {{8}}), C(0, {g}), X(0, {{8, 9}}), Z(0, {{8}}), C(1, {g})", True
        for m in MEAS:
            yield "measurement", f"Z(0, {{9}}), X(0, {{8}}), C(0, {g}), M(0, {m}, {{8, 9}}, {{8}})", True
            if thorough:
                yield "measurement", f"C(0, {g}), X(0, {{9}}), Z(0, {{8, 9}}), M(0, {m})", True
        for h in gs if thorough else ("Clifford(4)", "Clifford(6)", "Clifford(3)", "Clifford(13)", g):
            yield "C then C", f"C(0, {g}), C(0, {h}), X(0, {{8}})", True
    for g, h in cartesian(good, repeat=2):
        yield "C then E", f"X(1, {{8}}), C(0, {g}), C(1, {h}), E((1, 0)), Z(0, {{9}})", True
    for g in good:
        yield "C then E", f"C(0, {g}), X(0, {{8}}), Z(0, {{9}}), E((0, 1)), X(1, {{9}}), M(0, Measurement.YZ(alpha))", True
    doms = ("set()", "{8}", "{8, 9}")
    for a, b in cartesian("XZ", repeat=2):
        for p, q in cartesian(doms, repeat=2):
            yield "corrections then E", f"{a}(0, {p}), {b}(1, {q}), E((0, 1)), Z(1, {{9}}), Z(0, {{8}})", True
            yield "corrections", f"{a}(0, {p}), {b}(0, {q}), X(0, {{9}})", True
            yield "measurement", f"{a}(0, {p}), {b}(0, {q}), M(0, Measurement.XZ(alpha), {q}, {p}), X(1, {{0, 8}})", True
    for x in (
        "E((0, 1)), E((1, 0))", "E((0, 1)), E((0, 1)), E((1, 0))", "X(0, {8}), E((0, 1)), E((1, 0)), Z(1, {9})",
        "N(2), E((0, 1)), M(0, Measurement.XY(alpha), {8}), X(1, {0}), E((1, 2)), M(1, Measurement.XZ(beta), {0, 9}, {8}), X(2, {1, 8}), Z(2, {0})",
        "N(2), X(2, {8}), E((2, 1)), E((0, 2)), Z(0, {9}), X(0, {9, 8}), E((0, 1)), M(2, Measurement.YZ(alpha)), Z(0, {2})",
        "N(2, BasicStates.ZERO), X(1, {9}), E((2, 1)), C(2, Clifford.H), M(1, -Measurement.Y, {8}), N(3, PlanarState(Plane.XZ, alpha)), X(2, {1}), M(0, Measurement.Z), Z(3, {0, 1})",
        "N(2), C(2, Clifford.S), E((0, 2)), C(2, Clifford.X), E((2, 1)), M(2, Measurement.XY(alpha), set(), {8}), X(0, {2}), Z(1, {2, 9}), C(0, Clifford.H), X(0, {2, 8})",
        "M(0, Measurement.XY(alpha)), M(1, Measurement.XY(beta), {0}, {8, 0})",
        "C(0, Clifford.H), M(0, Measurement.XY(alpha)), Z(1, {0}), C(1, Clifford.H), Z(1, {0}), M(1, Measurement.Z, {0})",
        "",
    ):
        yield "sequence", x, True


def run(rep):
    cl = clifford_of(rep)
    names = scope(rep)
    kw = {"alpha": ALPHA, "beta": BETA, **names}
    f = rep.prog.func("graphix.optimization.standardize")
    for q in (f, method(rep, "graphix.optimization.StandardizedPattern", "from_pattern"), method(rep, "graphix.optimization.StandardizedPattern", "to_pattern"), method(rep, P + ".Pattern", "standardize")):
        rep.analysed(q)
    at = method(rep, "graphix.optimization.StandardizedPattern", "from_pattern").loc()
    def one(job):
        rule, body, exists = job
        key = body or "no command"
        outs = "[1, 0]" if " M(" not in " " + body and rule != "sequence" else None
        make = f"Pattern(input_nodes=[0, 1], cmds=[{PRE}, {body}])" if outs is None else f"(lambda p: (p.reorder_output_nodes({outs}), p)[1])(Pattern(input_nodes=[0, 1], cmds=[{PRE}, {body}]))"
        with rep.guard(rule, key):
            ps = outcomes(rep, P, f"(lambda p: (lambda q: (list(p), p.input_nodes, p.output_nodes, list(q), q.input_nodes, q.output_nodes, q.is_standard(strict=True)))(optimization.standardize(p)))({make})", rec=8, models=True, **kw)
            (before,) = patterns(rep, P, make, **kw)
            for p in ps:
                if p.kind != "return":
                    if p.value[0] == "NotImplementedError" and not exists:
                        rep.ok(rule, key)
                        continue
                    raise Refused(p)
                a, ai, ao, b, bi, bo, std = seq(p.frozen)
                a, b = seq(a), seq(b)
                orig = (before[1], before[2], before[3])
                left = (a, Br.items(ai), Br.items(ao))
                new = (b, Br.items(bi), Br.items(bo))
                why = None
                if list(map(show, left)) != list(map(show, orig)):
                    why = "the original pattern is changed"
                elif new[2] != orig[2]:
                    why = f"the outputs become {new[2]}"
                else:
                    why = not_standard(b) or (None if std is True else "is_standard(strict=True) does not hold for it") or same_branches(orig, new, cl)
                rep.expect(why is None, rule, key, at, f"{brief_cmds(orig[0])[:300]} becomes {brief_cmds(b)[:300]}: {why}")

    rep.share({(r, b or "no command"): (r, b, e) for r, b, e in reversed(list(bodies(rep, cl, rep.tier == "thorough")))}.values(), one)
    inplace(rep, cl, kw)
    is_standard(rep, kw)
    rep.floor("C then E", 60)
    rep.floor("measurement", 130)
    rep.floor("sequence", 5)
    rep.floor_total(500)


def not_standard(cmds):
    ranks = [ORDER.get(Br.kind(c), 9) for c in cmds]
    if ranks != sorted(ranks) or 9 in ranks:
        return "the commands are not in the order N, E, M, corrections, C"
    kinds = [(Br.kind(c), show(Br.flds(c)["node"])) for c in cmds if Br.kind(c) in "XZC"]
    if len(set(kinds)) != len(kinds):
        return "a node has several corrections of the same kind"
    return None


def inplace(rep, cl, kw):
    """Pattern.standardize changes the pattern itself, as the function does."""
    m = method(rep, P + ".Pattern", "standardize")
    for body in ("X(0, {8}), E((0, 1)), C(0, Clifford.H)", "N(2), X(1, {9}), E((1, 2)), M(1, Measurement.XY(alpha)), X(2, {1}), N(3)", "C(0, Clifford.S), Z(0, {8}), M(0, Measurement.XY(alpha))"):
        make = f"Pattern(input_nodes=[0, 1], cmds=[{PRE}, {body}])"
        with rep.guard("in place", body):
            (a,) = patterns(rep, P, make, **kw)
            for p in outcomes(rep, P, f"(lambda p: (p.standardize(), list(p), p.input_nodes, p.output_nodes, p.n_node))({make})", rec=8, models=True, **kw):
                if p.kind != "return":
                    raise Refused(p)
                r, b, i, o, n = seq(p.frozen)
                b = seq(b)
                why = not_standard(b) or same_branches((a[1], a[2], a[3]), (b, Br.items(i), Br.items(o)), cl)
                if why is None and Br.items(o) != a[3]:
                    why = f"the outputs become {show(o)}"
                if why is None and n != len(a[2]) + sum(Br.kind(c) == "N" for c in b):
                    why = f"the number of nodes is {show(n)}"
                rep.expect(why is None, "in place", body, m.loc(), f"becomes {brief_cmds(b)[:300]}: {why}")


def is_standard(rep, kw):
    m = method(rep, P + ".Pattern", "is_standard")
    rep.analysed(m)
    src = {"N": "N(2)", "E": "E((0, 1))", "M": "M(0, Measurement.X)", "X": "X(1, {0})", "Z": "Z(1, {0})", "C": "C(1, Clifford.H)"}
    for n in range(4):
        for ks in cartesian(src, repeat=n):
            key = " ".join(ks) or "(empty)"
            with rep.guard("is_standard", key):
                # the command list is put in as it is: only the kinds matter
                lst = f"[{', '.join(src[k] for k in ks)}]"
                got = {}
                for strict in (False, True):
                    got[strict] = fold(rep, P, f"(lambda p: (setattr(p, '__seq', {lst}), p.is_standard(strict={strict}))[1])(Pattern(input_nodes=[0, 1]))", rec=8, models=True, **kw)
                loose = [min(ORDER[k], 3) for k in ks]
                tight = [ORDER[k] for k in ks]
                want = {False: loose == sorted(loose), True: tight == sorted(tight)}
                rep.expect(got == want, "is_standard", key, m.loc(), f"is_standard gives {got[False]} and {got[True]} (strict) instead of {want[False]} and {want[True]}")
