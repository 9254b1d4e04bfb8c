"""F02: the pattern built from a well-formed flow is deterministic: every branch applies the map of the open graph, with the same probability."""

from random import Random

from rules.f01 import CLASSES, FLOW_ERRORS, fault, layered, lit, text
from rules.p09 import ANGLES, REGION, compare, not_pauli, pat
from sa import branch as Br
from sa import flows as F
from sa import mat
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the construction of corrections and patterns on known open graphs with symbolic angles; exact branch semantics"
RULE = (
    "Correction functions that satisfy the written definitions of causal flow, gflow and Pauli flow (any correction set that fits, any layering that fits, all planes and axes, output Cliffords, inputs and outputs in any order) are taken through to_xzcorrections and to_pattern, with the default order and with other compatible orders. "
    "In every outcome branch the resulting commands must apply the map of the open graph with all outcomes zero, and all branches must have the same probability. Going back from the corrections to a causal flow or gflow must return the correction function, and must refuse exactly the corrections which are not those of a flow. "
)
ASSUMPTIONS = ("the model of networkx graphs in sa/models", "open graphs of at most five nodes", "symbolic angles are not Pauli angles")
P = "graphix.flow.core"
SYMBOLS = {"XY": ("Measurement.XY(alpha)", "Measurement.XY(beta)", "Measurement.XY(0.25)"), "XZ": ("Measurement.XZ(beta)", "Measurement.XZ(gamma)", "Measurement.XZ(0.5)"), "YZ": ("Measurement.YZ(gamma)", "Measurement.YZ(alpha)", "Measurement.YZ(1.5)"), "X": ("Measurement.X", "-Measurement.X"), "Y": ("Measurement.Y", "-Measurement.Y"), "Z": ("Measurement.Z", "-Measurement.Z")}


def with_angles(r, og, labels=SYMBOLS):
    return og.source({n: r.choice(labels[la]) for n, la in og.labels.items()})


def with_cliffords(r, og, src):
    if og.outs and r.random() < 0.3:
        return f"{src[:-1]}, {{{', '.join(f'{o}: Clifford.{r.choice(("H", "S", "Z", "X", "I", "SDG"))}' for o in og.outs if r.random() < 0.7)}}})"
    return src


REFERENCE = "(lambda o: (Pattern(input_nodes=o.input_nodes, cmds=[*[N(n) for n in o.graph.nodes if n not in o.input_nodes], *[E(e) for e in o.graph.edges], *[M(n, m) for n, m in o.measurements.items()], *[C(n, c) for n, c in o.output_cliffords.items()]], output_nodes=o.output_nodes)))"


def delayed(r, og, layers):
    """Another layering where nodes come in the same order, or some of them earlier."""
    shift = 1 if og.outs else 0
    out = [set(x) for x in layers[:shift]]
    for la in layers[shift:]:
        la = sorted(la)
        r.shuffle(la)
        while la:
            k = r.randint(1, len(la))
            out.append(set(la[:k]))
            la = la[k:]
    return out


def run(rep):
    cl = clifford_of(rep)
    kw = {**ANGLES, **scope(rep), "hooks": {"graphix.measurements.BlochMeasurement.to_pauli_or_none": not_pauli}, "region": REGION}
    thorough = rep.tier == "thorough"
    loc = {}
    for k, c in CLASSES.items():
        m = method(rep, f"{P}.{c}", "to_xzcorrections")
        rep.analysed(m)
        loc[k] = m.loc()
    for n in ("to_pattern", "to_causalflow", "to_gflow", "generate_total_measurement_order"):
        m = method(rep, f"{P}.XZCorrections", n)
        rep.analysed(m)
        loc[n] = m.loc()

    def one(expr):
        ps = outcomes(rep, P, expr, rec=10, models=True, **kw)
        for p in ps:
            if p.kind != "return":
                raise Refused(p)
        if len(ps) != 1:
            raise AnalysisError(f"{len(ps)} outcomes")
        return ps[0].frozen

    def flow(job):
        kind, og, cf, la, seed = job
        r = Random(seed)
        if len(og.labels) > 4 or sum(1 for x in og.labels.values() if len(x) == 2) > 3 and not thorough:
            return
        la = delayed(r, og, la)
        src = with_cliffords(r, og, with_angles(r, og))
        order = [n for x in la[1 if og.outs else 0 :] for n in sorted(x, key=lambda _: r.random())][::-1]
        arg = r.choice(("", "", str(order), f"({', '.join(map(str, order))}{',' if order else ''})"))
        key = f"{kind} {seed}: {src} corrections {cf} layers {la} order {arg or 'default'}"
        rule = "pattern of a " + CLASSES[kind]
        new = f"{CLASSES[kind]}(o, {text(cf)}, {layered(la, r)})"
        with rep.guard(rule, key):
            got = seq(one(f"(lambda o: (lambda p, q: (list(p), p.input_nodes, p.output_nodes, list(q), q.input_nodes, q.output_nodes))({new}.to_xzcorrections().to_pattern({arg}), {REFERENCE}(o)))({src})"))
            after, ref = pat(*got[:3]), pat(*got[3:])
            why = uniform(after, ref, cl)
            if why is None and list(after[1]) != list(og.ins):
                why = f"the inputs are {after[1]} instead of {og.ins}"
            if why is None and list(after[2]) != list(og.outs):
                why = f"the outputs are {after[2]} instead of {og.outs}"
            if why is None and arg and Br.measured(after[0]) != order:
                why = f"the measurements are made in the order {Br.measured(after[0])}"
            rep.expect(why is None, rule, key, loc[kind], f"gives {brief_cmds(after[0])[:300]}: {why}")
        if kind != "pauli":
            with rep.guard("back to " + CLASSES[kind], key):
                back = "to_gflow" if kind == "gflow" else "to_causalflow"
                v = seq(one(f"(lambda o: (lambda f: [[(k, list(s)) for k, s in f.correction_function.items()], [list(s) for s in f.partial_order_layers]])({new}.to_xzcorrections().{back}()))({src})"))
                cf2 = {k: set(seq(s)) for k, s in (seq(x) for x in seq(v[0]))}
                la2 = [set(seq(x)) for x in seq(v[1])]
                rep.expect(cf2 == cf and la2 == la, "back to " + CLASSES[kind], key, loc[back], f"the correction function becomes {cf2}, the layers {la2}")

    def uniform(new, ref, cl):
        try:
            nodes = Br.measured(new[0])
            want, w0, _ = Br.run(*ref, dict.fromkeys(nodes, 0), cl)
            first = None
            for b in Br.branches(nodes, 4):
                m, w, _ = Br.run(*new, b, cl)
                if not any(any(row) for row in m) or not any(any(row) for row in want):
                    return "some branch is impossible"
                if not mat.proportional(m, want):
                    return f"another map is applied when the outcomes are {b}"
                n = Br.norm(m)
                if first is None:
                    first = n, w
                elif mat.mul(n, first[1]) != mat.mul(first[0], w):
                    return f"the outcomes {b} do not have the same probability as the others"
        except Br.Missing as e:
            return f"the pattern cannot run: {e}"
        return None

    def refuse(job):
        kind, og, x, z, la, seed = job
        back = "to_gflow" if kind == "gflow" else "to_causalflow"
        cf = {n: set(x.get(n, ())) | ({n} if kind == "gflow" and og.labels[n] in ("XZ", "YZ") else set()) for n in og.labels}
        if kind == "causal":
            cf = {n: set(s) for n, s in x.items()}
        bad = F.faults(kind, og, cf, la)
        key = f"{kind} {seed}: {og} X {x} Z {z} layers {la}"
        with rep.guard("corrections of a " + CLASSES[kind], key):
            ps = outcomes(rep, P, f"(lambda f: [(k, list(s)) for k, s in f.correction_function.items()])(XZCorrections({og.source()}, {text(x)}, {text(z)}, {la}).{back}())", rec=10, models=True, **kw)
            if len(ps) != 1 or ps[0].guards:
                raise AnalysisError(f"{len(ps)} outcomes")
            p = ps[0]
            if p.kind == "raise":
                name, reason, _ = fault(p)
                why = None if bad and name in FLOW_ERRORS else f"refused with {name} {reason}, faults are {sorted(map(str, bad))}"
            else:
                got = {k: set(seq(s)) for k, s in (seq(i) for i in seq(p.frozen))}
                why = f"accepted, but {sorted(map(str, bad))} hold" if bad else None if got == cf else f"the correction function is {got} instead of {cf}"
            rep.expect(why is None, "corrections of a " + CLASSES[kind], key, loc[back], str(why))

    jobs = []
    n = 8 if thorough else 3
    for kind, count in (("causal", 100 * n), ("gflow", 260 * n), ("pauli", 420 * n)):
        seen = {}
        for i, (og, cf, la) in enumerate(F.candidates(kind, "two", 12 * count)):
            if F.faults(kind, og, cf, la) or not og.labels:
                continue
            shape = (len(og.labels), bool(og.ins), frozenset(og.labels.values()))
            seen[shape] = seen.get(shape, 0) + 1
            if seen[shape] <= 12 * n * len(og.labels) and count:
                count -= 1
                jobs.append((flow, (kind, og, cf, la, f"{kind}{i}")))
    for kind in ("gflow", "pauli"):
        jobs += [(flow, j) for j in F.pairs(kind, 1) if not F.faults(*j[:4])]
    for kind in ("causal", "gflow"):
        for i, (og, cf, la) in enumerate(F.spread(kind, "three", 1500 * n, 10 * n, 1)):
            if set(cf) - set(og.labels) or any("NthLayer" == a or a == "IncorrectNodes" for a, _ in F.layer_faults(og, la)):
                continue
            x = {k: v - {k} if kind == "gflow" else v for k, v in cf.items() if v}
            z = {k: og.odd(v) - {k} for k, v in cf.items() if og.odd(v) - {k}}
            jobs.append((refuse, (kind, og, x, z, la, f"{kind}{i}")))
    rep.share(jobs, lambda j: j[0](j[1]))
    rep.floor("pattern of a CausalFlow", 60)
    rep.floor("pattern of a GFlow", 100)
    rep.floor("pattern of a PauliFlow", 150)
    rep.floor("corrections of a CausalFlow", 40)
    rep.floor("corrections of a GFlow", 40)
