"""P09: optimising a pattern keeps what every outcome branch does, and keeps the promises about space and depth."""

from fractions import Fraction
from itertools import combinations, product as cartesian

from rules.g01 import ALPHA
from sa import branch as Br
from sa import corpus
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the optimisations on known command lists with symbolic angles; exact branch semantics before and after"
RULE = (
    "Each optimisation (parallelisation, space minimisation with each heuristic, removal of useless domains, single-qubit domains, removal of local Cliffords, conversion between Bloch and Pauli measurements, Pauli pushing, removal of Pauli measurements) is interpreted abstractly on a fixed collection of patterns: commands in any order, all planes and axes, overlapping domains, Clifford gates, no output, no measurement, other preparations. "
    "The exact linear map and probability of each branch of the result must be those of the corresponding branch of the original (with outcomes relabelled by the shifted domains; with the removed nodes at outcome 0). Space and depth: max_space and space_list count the nodes alive, minimisation never needs more space than the unchanged order, partial_order_layers are the longest-path layers of the dependencies, and the parallel pattern measures in that order."
)
ASSUMPTIONS = ("the model of networkx graphs in sa/models", "patterns of at most seven nodes", "symbolic angles are not Pauli angles")
P = "graphix.pattern"
ANGLES = {"alpha": ALPHA, "beta": Term("var", "beta", typ=("prim", "float")), "gamma": Term("var", "gamma", typ=("prim", "float"))}
REGION = {ANGLES[k]: Fraction(v) for k, v in (("alpha", "0.3"), ("beta", "0.7"), ("gamma", "1.1"))}  # only selects which way angles wrap around
HAND = (
    "Pattern(input_nodes=[0], cmds=[N(1), E((0, 1)), C(0, Clifford.I), M(0, Measurement.XY(alpha)), X(1, {0}), C(1, Clifford.I)])",
    "Pattern(input_nodes=[0], cmds=[N(1), E((0, 1)), M(0, Measurement.XY(alpha)), M(1, Measurement.XY(beta), {0})])",
    "Pattern(input_nodes=[1, 0], cmds=[E((0, 1)), X(0, set()), C(1, Clifford.S)])",
    "Pattern(input_nodes=[0])",
    "Pattern(cmds=[N(0), M(0, -Measurement.X)])",
    "Pattern(input_nodes=[0], cmds=[N(1), M(1, -Measurement.X), X(0, {1}), C(0, Clifford.H)])",
    "Pattern(input_nodes=[0], cmds=[N(1), N(2), N(3), E((1, 2)), E((2, 3)), M(1, Measurement.X), M(3, -Measurement.X), M(0, Measurement.XY(alpha), {1, 3}, {3}), M(2, Measurement.Z, {0}), N(4), X(4, {2, 3}), Z(4, {1, 3})])",
    "Pattern(input_nodes=[0, 1], cmds=[N(2), N(3), E((0, 2)), E((1, 3)), E((2, 3)), M(1, Measurement.XY(beta)), X(3, {1}), Z(2, {1}), M(0, Measurement.XY(alpha)), X(2, {0}), Z(3, {0})], output_nodes=[3, 2])",
    "Pattern(input_nodes=[0], cmds=[N(1), E((0, 1)), M(0, Measurement.XY(alpha)), X(1, {0}), N(2), E((1, 2)), M(1, Measurement.XY(beta)), X(2, {1}), N(3), E((2, 3)), M(2, Measurement.XY(gamma)), X(3, {2})])",
    "Pattern(input_nodes=[0], cmds=[N(1), N(2), E((0, 1)), E((1, 2)), M(1, Measurement.X), M(0, Measurement.XY(alpha), {1}), X(2, {0}), Z(2, {1})])",
    "Pattern(input_nodes=[3], cmds=[N(2), N(1), N(0), E((3, 2)), E((2, 1)), E((1, 0)), E((3, 1)), M(3, Measurement.XY(alpha)), M(2, Measurement.XZ(beta), {3}), M(1, Measurement.YZ(gamma), {2}, {3, 2}), X(0, {1}), Z(0, {3, 2})])",
    "Pattern(input_nodes=[0], cmds=[N(1, BasicStates.ZERO), N(2), E((0, 1)), E((1, 2)), M(0, Measurement.XY(alpha)), M(1, Measurement.Y, {0}), X(2, {1})])",
    "Pattern(input_nodes=[0], cmds=[N(1, BasicStates.MINUS), E((0, 1)), M(0, Measurement.XY(alpha)), X(1, {0})])",
    "Pattern(input_nodes=[0], cmds=[N(1), N(2), N(3), N(4), N(5), E((0, 1)), E((1, 2)), E((1, 3)), E((2, 4)), E((3, 4)), E((4, 5)), M(1, Measurement.Y), M(2, -Measurement.Y, {1}), M(3, Measurement.X, {2}, {1}), M(4, Measurement.Y, {1, 3}, {2}), M(0, Measurement.XY(alpha), {4}, {3}), X(5, {0, 4}), Z(5, {1, 0})])",
    "Pattern(input_nodes=[0, 5], cmds=[N(1), N(2), E((0, 1)), E((1, 2)), E((1, 5)), M(1, Measurement.X), M(0, Measurement.XY(alpha), {1}), X(2, {0, 1}), Z(5, {1})])",
    "Pattern(input_nodes=[0, 2], cmds=[N(1), E((0, 1)), E((1, 2)), M(1, -Measurement.X), X(0, {1}), Z(2, {1})])",
    "Pattern(input_nodes=[0], cmds=[N(1), N(2), E((0, 1)), E((1, 2)), M(1, -Measurement.X), X(0, {1}), Z(2, {1}), C(2, Clifford.H)], output_nodes=[2, 0])",
)
INPLACE = {
    "parallelize_pattern": "p.parallelize_pattern()",
    "minimize_space": "p.minimize_space()",
    "to_bloch": "p.blochify()",
}
COPIES = {
    "minimize_space": "p.minimize_space(copy=True)",
    "to_space_optimal_pattern": "p.minimize_space([], copy=True)",
    "causal_flow": "p.minimize_space([SpaceMinimizationHeuristics.causal_flow], copy=True)",
    "greedy_degree": "p.minimize_space([SpaceMinimizationHeuristics.greedy_degree], copy=True)",
    "order_unchanged": "p.minimize_space([SpaceMinimizationHeuristics.order_unchanged], copy=True)",
    "remove_useless_domains": "optimization.remove_useless_domains(p)",
    "single_qubit_domains": "optimization.single_qubit_domains(p)",
    "to_bloch": "p.to_bloch()",
    "standardized": "StandardizedPattern.from_pattern(p).to_bloch().minimize_space([SpaceMinimizationHeuristics.greedy_degree]).to_pattern()",
}


def sources(thorough):
    for x in HAND:
        yield "selected", x
    for i in range(60 if thorough else 16):
        yield "mixed", corpus.make(("mixed", i).__repr__())
        yield "Cliffords", corpus.make(("clifford", i).__repr__(), inputs=1, outputs=1 + i % 2, n=4, clifford=0.7, pauli=0.3)
        x = corpus.make(("states", i).__repr__(), inputs=i % 2, outputs=i % 3, n=5, state=0.4, pauli=0.6)
        if thorough or "gamma" not in x or "output_nodes=[]" not in x:
            yield "states", x


def pauli_sources(thorough):
    for x in HAND:
        yield "selected", x
    for i in range(120 if thorough else 40):
        yield "Paulis", corpus.make(("pauli", i).__repr__(), inputs=1 + i % 2, n=6, outputs=1 + i % 2, pauli=0.85, edge=0.5, clifford=0.1)
        if i % 2:
            yield "states", corpus.make(("pst", i).__repr__(), inputs=1, n=5, outputs=1, pauli=0.8, edge=0.6, state=0.3)


def numeric_sources(thorough):
    for i in range(60 if thorough else 16):
        yield corpus.make(("numeric", i).__repr__(), inputs=1, n=4, outputs=1, pauli=0.2, numeric=True)


LINE = (
    "Pattern(input_nodes=list(og_.input_nodes), cmds=[N(i) for i in range(1, len(og_.measurements) + 1)] + [E(e) for e in og_.graph.edges]"
    " + [M(i, og_.measurements[i], {i - 1} if i else set(), {i - 2} if i > 1 else set()) for i in range(len(og_.measurements))]"
    " + [X(i, {i - 1}) for i in og_.output_nodes if i] + [Z(i, {i - 2}) for i in og_.output_nodes if i > 1], output_nodes=list(og_.output_nodes))"
)


def chain_pattern(rep, kw):
    """The pattern of the open graph of a Clifford gate: a line measured in X and Y from its input to its output (flow extraction is not followed)."""
    names = scope(rep)

    def hook(interp, bound, node):
        return interp.call_func(lam(rep, P, LINE, "og_", *names), [next(iter(bound.values())), *names.values()], {}, node)

    return hook


def not_pauli(interp, bound, node):
    return None


def branch(cmds, ins, outs, x, cl, memo={}):
    """One outcome branch; the same patterns come back often."""
    key = (tuple(cmds), tuple(ins), tuple(outs), tuple(sorted(x.items())))
    if key not in memo:
        memo[key] = Br.run(cmds, ins, outs, x, cl)
    return memo[key]


def fmt(c):
    return brief_cmds(c)[:400]


def pat(cmds, ins, outs):
    return (seq(cmds), Br.items(ins), Br.items(outs))


def compare(new, old, cl, out=lambda x: x):
    """Why some branch of `new` does not do what the corresponding branch of `old` does, up to one factor on all probabilities."""
    if list(map(show, new[1])) != list(map(show, old[1])):
        return f"the inputs become {new[1]} instead of {old[1]}"
    ratio = None
    try:
        for x in Br.branches(Br.measured(new[0]), 4):
            m1, w1, _ = branch(*new, x, cl)
            m2, w2, _ = branch(*old, out(x), cl)
            z1, z2 = zero(m1), zero(m2)
            if z1 and z2:
                continue
            if z1 or z2:
                return f"the outcomes {x} are {'im' if z1 else ''}possible after it only"
            if not mat.proportional(m1, m2):
                return f"another map is applied when the outcomes are {x}"
            a, b = mat.mul(Br.norm(m1), w2), mat.mul(Br.norm(m2), w1)
            if ratio is None:
                ratio = (a, b)
            elif mat.mul(a, ratio[1]) != mat.mul(b, ratio[0]):
                return f"the outcomes {x} have another probability"
    except Br.Missing as e:
        return f"the pattern cannot run: {e}"
    return None


def zero(m):
    return not any(x for row in m for x in row)


def nodes_of(p):
    return set(p[1]) | {Br.flds(c)["node"] for c in p[0] if Br.kind(c) == "N"}


def same_nodes(new, old):
    if nodes_of(new) != nodes_of(old) or sorted(Br.measured(new[0])) != sorted(Br.measured(old[0])):
        return "other nodes are prepared or measured"
    return None


def run(rep):
    cl = clifford_of(rep)
    kw = {**ANGLES, **scope(rep), "SpaceMinimizationHeuristics": rep.prog.cls("graphix.space_minimization.SpaceMinimizationHeuristics"), "PauliPushingCut": rep.prog.cls("graphix.remove_pauli_measurements.PauliPushingCut")}
    kw["hooks"] = {"graphix.measurements.BlochMeasurement.to_pauli_or_none": not_pauli, "graphix.opengraph.OpenGraph.to_pattern": chain_pattern(rep, kw)}
    kw["region"] = REGION
    thorough = rep.tier == "thorough"
    loc = {}
    for n in ("parallelize_pattern", "minimize_space", "to_bloch", "blochify", "infer_pauli_measurements", "perform_pauli_pushing", "remove_pauli_measurements", "remove_local_clifford_commands", "partial_order_layers", "max_space", "space_list", "apply"):
        m = method(rep, P + ".Pattern", n)
        rep.analysed(m)
        loc[n] = m.loc()
    for n in ("remove_useless_domains", "single_qubit_domains", "remove_local_clifford_commands"):
        f = rep.prog.func("graphix.optimization." + n)
        rep.analysed(f)
        loc[n] = f.loc()
    for n in ("standardized_to_space_optimal_pattern", "minimize_space", "pattern_max_space", "standardized_pattern_max_space"):
        f = rep.prog.func("graphix.space_minimization." + n)
        rep.analysed(f)
        loc["space." + n] = f.loc()
    for n in ("causal_flow", "greedy_degree", "order_unchanged"):
        f = method(rep, "graphix.space_minimization.SpaceMinimizationHeuristics", n)
        rep.analysed(f)
        loc[n] = f.loc()
    loc["to_space_optimal_pattern"] = loc["space.standardized_to_space_optimal_pattern"]
    loc["standardized"] = loc["space.minimize_space"]
    def first(src):
        with rep.guard("pattern", src):
            (before,) = patterns(rep, P, src, **kw)
            before = before[1:4]
            for n, e in INPLACE.items():
                with rep.guard(n + " in place", src):
                    for new in results(rep, f"(lambda p: (lambda r: (list(p), p.input_nodes, p.output_nodes, p.n_node, r is None or r is p))({e}))({src})", kw):
                        after = pat(*new[:3])
                        why = same_nodes(after, before) or compare(after, before, cl)
                        if why is None and new[3] != len(nodes_of(after)):
                            why = f"the number of nodes becomes {new[3]}"
                        if why is None and new[4] is not True:
                            why = "the result is not the pattern itself"
                        rep.expect(why is None, n + " in place", src, loc[n], f"becomes {fmt(after[0])}: {why}")
            for n, e in COPIES.items():
                with rep.guard(n, src):
                    for new in results(rep, f"(lambda p: (lambda q: (list(q), q.input_nodes, q.output_nodes, q.n_node, list(p), p.input_nodes, p.output_nodes))({e}))({src})", kw):
                        after, left = pat(*new[:3]), pat(*new[4:7])
                        why = same_nodes(after, before) or compare(after, before, cl)
                        if why is None and new[3] != len(nodes_of(after)):
                            why = f"the number of nodes is {new[3]}"
                        if why is None and list(map(show, left)) != list(map(show, before)):
                            why = "the original is changed"
                        if why is None and n == "single_qubit_domains" and any(len(Br.items(v)) > 1 for c in after[0] for k, v in Br.flds(c).items() if "domain" in k):
                            why = "a domain has several nodes"
                        if why is None and n == "to_bloch" and any("axis" in Br.flds(Br.flds(c)["measurement"]) for c in after[0] if Br.kind(c) == "M"):
                            why = "a Pauli measurement is left"
                        rep.expect(why is None, n, src, loc[n], f"becomes {fmt(after[0])}: {why}")
            local_cliffords(rep, cl, kw, src, before, loc)
            space(rep, kw, src, before, loc)
            depth(rep, kw, src, before, loc)

    def paulis(src):
        with rep.guard("pattern", src):
            (before,) = patterns(rep, P, src, **kw)
            before = before[1:4]
            pushing(rep, cl, kw, src, before, loc)
            removal(rep, cl, kw, src, before, loc)

    def numbers(src):
        k2 = {**kw, "hooks": None}
        with rep.guard("infer_pauli_measurements", src):
            (before,) = patterns(rep, P, src, **k2)
            for new in results(rep, f"(lambda p: (lambda q: (list(q), q.input_nodes, q.output_nodes, list(p)))(p.infer_pauli_measurements(copy=True)))({src})", k2):
                after = pat(*new[:3])
                why = compare(after, before[1:4], cl)
                if why is None and show(tuple(seq(new[3]))) != show(tuple(before[1])):
                    why = "the original is changed"
                for c in after[0]:
                    if why is None and Br.kind(c) == "M" and "angle" in Br.flds(Br.flds(c)["measurement"]):
                        a = Br.flds(Br.flds(c)["measurement"])["angle"]
                        if isinstance(a, (int, float)) and a * 2 == int(a * 2) or isinstance(a, Fraction) and (2 * a).denominator == 1:
                            why = f"the measurement {brief_cmd(c)} is not inferred"
                rep.expect(why is None, "infer_pauli_measurements", src, loc["infer_pauli_measurements"], f"becomes {fmt(after[0])}: {why}")

    jobs = [(first, x) for _, x in sources(thorough)] + [(paulis, x) for _, x in pauli_sources(thorough)] + [(numbers, x) for x in numeric_sources(thorough)]
    rep.share(jobs, lambda j: j[0](j[1]))
    rep.floor("parallelize_pattern in place", 50)
    rep.floor("remove_pauli_measurements", 60)
    rep.floor("perform_pauli_pushing", 60)
    rep.floor_total(900)


def results(rep, expr, kw):
    ps = outcomes(rep, P, expr, rec=10, models=True, **kw)
    for p in ps:
        if p.kind != "return":
            raise Refused(p)
        yield seq(p.frozen)


def local_cliffords(rep, cl, kw, src, before, loc):
    n = "remove_local_clifford_commands"
    cs = sum(Br.kind(c) == "C" for c in before[0])
    if cs > 3 or len(before[0]) > 22:
        return
    with rep.guard(n, src):
        for new in results(rep, f"(lambda p: (lambda q: (list(q), q.input_nodes, q.output_nodes, q.n_node, list(p)))(p.remove_local_clifford_commands(copy=True)))({src})", kw):
            after = pat(*new[:3])
            if len(Br.measured(after[0])) > 9:
                continue
            turned = {Br.flds(c)["node"] for c in before[0] if Br.kind(c) == "C"}
            keep = Br.measured(before[0])
            old = nodes_of(before)
            fresh = [x for x in Br.measured(after[0]) if x not in old]
            why = None if set(keep) - turned <= set(Br.measured(after[0])) else "a measurement is lost"
            for pick in combinations(fresh, len(turned & set(keep))) if why is None else ():
                name = dict(zip([x for x in keep if x in turned], pick))
                why = compare(after, before, cl, out=lambda x: {k: x[name.get(k, k)] for k in keep})
                if why is None:
                    break
            if why is None and any(Br.kind(c) == "C" for c in after[0]):
                why = "a Clifford command is left"
            if why is None and new[3] != len(nodes_of(after)):
                why = f"the number of nodes is {new[3]}"
            if why is None and show(tuple(seq(new[4]))) != show(tuple(before[0])):
                why = "the original is changed"
            rep.expect(why is None, n, src, loc[n], f"becomes {fmt(after[0])}: {why}")


def alive(p):
    n = len(p[1])
    out = [n]
    for c in p[0]:
        if Br.kind(c) in "NM":
            n += {"N": 1, "M": -1}[Br.kind(c)]
            out.append(n)
    return out


def space(rep, kw, src, before, loc):
    n = "space"
    with rep.guard(n, src):
        e = "(lambda s: (p.max_space(), p.space_list(), s.max_space(), list(s.to_space_optimal_pattern()), s.minimize_space().max_space(), [s.minimize_space([h]).max_space() for h in (SpaceMinimizationHeuristics.greedy_degree, SpaceMinimizationHeuristics.order_unchanged)]))(StandardizedPattern.from_pattern(p))"
        for new in results(rep, f"(lambda p: {e})({src})", kw):
            mx, lst, smax, opt, best, each = new
            lst, opt, each = list(seq(lst)), seq(opt), seq(each)
            want = alive(before)
            real = max(alive((opt, before[1], before[2])))
            why = None
            if mx != max(want):
                why = f"max_space gives {mx} instead of {max(want)}"
            elif lst != want[1:]:
                why = f"space_list gives {lst}"
            elif smax != real:
                why = f"the space of the standardized pattern is given as {smax} instead of {real}"
            elif best > smax:
                why = f"minimising the space needs {best} nodes instead of {smax}"
            elif best > min(each):
                why = f"minimising the space keeps {best} although a heuristic gives {min(each)}"
            elif each[1] != smax:
                why = "the unchanged order is changed"
            rep.expect(why is None, n, src, loc["max_space"], str(why))


def layers(cmds, outs):
    """Longest-path layers of the measurements of a standard sequence, first ones first."""
    level = {}
    for c in cmds:
        if Br.kind(c) == "M":
            d = Br.flds(c)
            dep = set(Br.items(d["s_domain"])) | set(Br.items(d["t_domain"]))
            level[d["node"]] = 1 + max((level[x] for x in dep), default=-1)
    return [frozenset(k for k, v in level.items() if v == i) for i in range(max(level.values(), default=-1) + 1)]


def depth(rep, kw, src, before, loc):
    n = "partial_order_layers"
    with rep.guard(n, src):
        for new in results(rep, f"(lambda p, q: (q.standardize(), list(q), p.partial_order_layers(), p.parallelize_pattern(), list(p)))({src}, {src})", kw):
            std, lay, par = seq(new[1]), [frozenset(Br.items(x)) for x in seq(new[2])], seq(new[4])
            want = layers(std, before[2])
            full = ([frozenset(before[2])] if before[2] else []) + want[::-1]
            why = None
            if lay != full:
                why = f"gives {[sorted(map(show, x)) for x in lay]} instead of {[sorted(map(show, x)) for x in full]}"
            else:
                rank = {x: i for i, l in enumerate(want) for x in l}
                order = [rank[x] for x in Br.measured(par)]
                if order != sorted(order):
                    why = f"the parallel pattern measures in the order {Br.measured(par)}"
            rep.expect(why is None, n, src, loc[n], str(why))


def shift(x, sig):
    return {n: (b + sum(x[i] for i in sig.get(n, ()))) % 2 for n, b in x.items()}


def pushing(rep, cl, kw, src, before, loc):
    n = "perform_pauli_pushing"
    paulis = [Br.flds(c)["node"] for c in before[0] if Br.kind(c) == "M" and "axis" in Br.flds(Br.flds(c)["measurement"])]
    leaves = [(), tuple(paulis[:1])] if paulis else [()]
    for leave in leaves:
        with rep.guard(n, f"{src} leaving {list(leave)}"):
            lv = "{" + ", ".join(map(str, leave)) + "}" if leave else "None"
            e = f"(lambda c, q: (list(q), q.input_nodes, q.output_nodes, c.shifted_domains, list(c.to_standardizedpattern().to_pattern()), list(p)))(PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(p), {lv}), p.perform_pauli_pushing(leave_nodes={lv}, copy=True))"
            for new in results(rep, f"(lambda p: {e})({src})", kw):
                after = pat(*new[:3])
                sig = {k: Br.items(v) for k, v in dict_items(new[3]).items()}
                std = (seq(new[4]), after[1], after[2])
                why = same_nodes(after, before) or compare(after, before, cl, out=lambda x: shift(x, sig)) or compare(std, before, cl, out=lambda x: shift(x, sig))
                seen = False
                for c in after[0]:
                    if why is None and Br.kind(c) == "M":
                        d = Br.flds(c)
                        if "axis" in Br.flds(d["measurement"]) and d["node"] not in leave:
                            if seen:
                                why = f"the Pauli measurement of {d['node']} comes after others"
                            elif Br.items(d["s_domain"]) or Br.items(d["t_domain"]):
                                why = f"the Pauli measurement of {d['node']} has a domain"
                        else:
                            seen = True
                if why is None and show(tuple(seq(new[5]))) != show(tuple(before[0])):
                    why = "the original is changed"
                rep.expect(why is None, n, f"{src} leaving {list(leave)}", loc[n], f"becomes {fmt(after[0])}: {why}")


def removal(rep, cl, kw, src, before, loc):
    n = "remove_pauli_measurements"
    with rep.guard(n, src):
        e = "(lambda c, q: (list(q), q.input_nodes, q.output_nodes, q.n_node, c.shifted_domains, list(p), [m.node for m in c.measurements], (p.remove_pauli_measurements(), list(p), p.output_nodes, p.n_node)))(PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(p)), p.remove_pauli_measurements(copy=True))"
        for new in results(rep, f"(lambda p: {e})({src})", kw):
            after = pat(*new[:3])
            sig = {k: Br.items(v) for k, v in dict_items(new[4]).items()}
            order = list(seq(new[6]))
            why = removed(after, before, cl, order, sig)
            if why is None and new[3] != len(nodes_of(after)):
                why = f"the number of nodes is {new[3]}"
            if why is None and show(tuple(seq(new[5]))) != show(tuple(before[0])):
                why = "the original is changed"
            same = seq(new[7])
            if why is None and (show(same[1]), show(same[2]), show(same[3])) != (show(new[0]), show(new[2]), show(new[3])):
                why = "the change in place is another one"
            if why is None:
                why = complete(after, before)
            rep.expect(why is None, n, src, loc[n], f"becomes {fmt(after[0])}: {why}")


def complete(after, before):
    """The documentation: no Y or Z measurement outside inputs is left, and no X next to another internal node."""
    plus = {Br.flds(c)["node"] for c in after[0] if Br.kind(c) == "N" and show(Br.flds(c)["state"]) != ""}
    if any("state" in Br.flds(c) and not is_plus(Br.flds(c)["state"]) for c in before[0] if Br.kind(c) == "N"):
        return None
    inner = {Br.flds(c)["node"] for c in after[0] if Br.kind(c) == "M"} - set(after[1])
    for c in after[0]:
        if Br.kind(c) == "M" and "axis" in Br.flds(Br.flds(c)["measurement"]):
            x = Br.flds(c)["node"]
            if x not in inner:
                continue
            a = Br.flds(Br.flds(c)["measurement"])["axis"].name
            if a in "YZ":
                return f"the {a} measurement of {x} is left"
            near = {y for k in after[0] if Br.kind(k) == "E" and x in Br.items(Br.flds(k)["nodes"]) for y in Br.items(Br.flds(k)["nodes"])} - {x}
            if near & inner or near & (set(after[2]) - set(after[1])):
                return f"the X measurement of {x}, next to {sorted(map(show, near))}, is left"
    return None


def is_plus(s):
    d = Br.flds(s)
    return d["plane"].name == "XY" and d["angle"] == 0


def removed(after, before, cl, order, sig):
    """Some choice of the removed nodes must explain every branch, with their outcomes at 0 (or the only possible ones)."""
    kept = Br.measured(after[0])
    if len(kept) > len(order) or len(after[2]) != len(before[2]):
        return "nodes are added or outputs are lost"
    last = "the nodes do not match"
    fixed = [x for x in kept if x in after[1]]
    for pick in combinations(order, len(kept)):
        if any((a in after[1]) != (b in after[1]) or a in after[1] and a != b for a, b in zip(pick, kept)):
            continue
        gone = [x for x in order if x not in pick]
        why = explain(after, before, cl, dict(zip(kept, pick)), gone, sig)
        if why is None:
            return None
        last = why
    return last


def explain(after, before, cl, name, gone, sig):
    """The result is the original with the removed nodes at outcome 0, or at the outcomes they must then have."""
    if list(map(show, after[1])) != list(map(show, before[1])):
        return "the inputs change"
    xs = list(Br.branches(Br.measured(after[0]), 6))
    old = lambda x, r: branch(*before, shift({**{name[k]: v for k, v in x.items()}, **dict(zip(gone, r))}, sig), cl)
    why = "no outcome of the removed nodes is possible"
    taken = []
    try:
        for r in sorted(cartesian((0, 1), repeat=len(gone)), key=sum):
            if any(all(a <= b for a, b in zip(t, r)) for t in taken):
                continue
            if all(zero(old(x, r)[0]) for x in xs):
                continue
            taken.append(r)
            why = fits(after, xs, cl, lambda x: old(x, r))
            if why is None:
                return None
    except Br.Missing as e:
        return f"the pattern cannot run: {e}"
    return why


def fits(after, xs, cl, old):
    ratio = None
    for x in xs:
        m1, w1, _ = branch(*after, x, cl)
        m2, w2, _ = old(x)
        if zero(m1) or zero(m2):
            if zero(m1) and zero(m2):
                continue
            return f"the outcomes {x} become {'im' if zero(m1) else ''}possible"
        if not mat.proportional(m1, m2):
            return f"another map is applied when the outcomes are {x}"
        a, b = mat.mul(Br.norm(m1), w2), mat.mul(Br.norm(m2), w1)
        if ratio is None:
            ratio = (a, b)
        elif mat.mul(a, ratio[1]) != mat.mul(b, ratio[0]):
            return f"the outcomes {x} have another probability"
    return None
