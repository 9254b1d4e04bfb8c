"""F03: flows are found exactly when they exist, and are the ones with as few layers as possible."""

import random
from itertools import combinations, product

from sa import flows as F
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the flow-finding algorithms, down to the compiled linear algebra, on families of labelled open graphs; the answer is compared with the published definition by exhaustive search over correction sets"
RULE = (
    "to_causalflow_or_none, to_gflow_or_none and to_pauliflow_or_none are interpreted, GF(2) kernels included, on labelled open graphs. Where the definition admits a flow (exhaustive search, maximally delayed) they must return one: it must satisfy every proposition of its definition, impose exactly the layers of the maximally delayed flow, be given with as few layers, and be focused (gflow and Pauli flow). Where it admits none they must return None, and the methods without or_none must raise."
)
ASSUMPTIONS = ("open graphs of up to five nodes (six with --thorough)", "numpy, numba and networkx have their documented semantics (models in sa/)")
OGM = "graphix.opengraph"
CORE = "graphix.flow.core"
METHOD = {"causal": "to_causalflow", "gflow": "to_gflow", "pauli": "to_pauliflow"}
CLASS = {"causal": "CausalFlow", "gflow": "GFlow", "pauli": "PauliFlow"}


def plain(v):
    if isinstance(v, Term) and v.op in ("list", "tuple", "set", "frozenset", "setlit"):
        return [plain(x) for x in v.args]
    if isinstance(v, (tuple, list)):
        return [plain(x) for x in v]
    return v


def delayed(kind, og, cf):
    """The layers a correction function needs, every node as late as it can be measured."""
    after = {v: {j for j in og.labels if j != v and F.broken(kind, og, v, set(c), set(og.nodes) - {v, j})} for v, c in cf.items()}
    layers, done = ([set(og.outs)] if og.outs else []), set()
    while len(done) < len(cf):
        new = {v for v in cf if v not in done and after[v] <= done}
        if not new:
            return None
        layers.append(new)
        done |= new
    return layers


def graphs(kind, seed, count, top):
    """Labelled open graphs: all the small ones of a kind (thinned), then random larger ones of which at least a third have a flow."""
    r = random.Random(seed)
    labels = {"causal": ("XY",), "gflow": ("XY", "XZ", "YZ"), "pauli": ("XY", "XZ", "YZ", "X", "Y", "Z")}[kind]
    out = []
    for n in (1, 2, 3):
        nodes = range(n)
        alle = list(combinations(nodes, 2))
        for k in range(2 ** len(alle)):
            edges = [e for i, e in enumerate(alle) if k >> i & 1]
            for io in product(range(4), repeat=n):
                ins, outs = [i for i in nodes if io[i] & 1], [i for i in nodes if io[i] & 2]
                m = [i for i in nodes if i not in outs]
                every = list(product(labels, repeat=len(m)))
                for labs in every if n < 3 else r.sample(every, min(len(every), 2)):
                    out.append(F.OG(nodes, edges, ins, outs, dict(zip(m, labs))))
    r.shuffle(out)
    out = sorted(out, key=lambda g: len(g.nodes))
    keep = [g for g in out if len(g.nodes) < 3] + [g for g in out if len(g.nodes) == 3][: count // 2]
    yes = no = 0
    tries = 0
    while yes + no < count and tries < 60 * count:
        tries += 1
        n = r.choice(range(4, top + 1))
        g = F.random_graph(r, n, labels)
        has = F.find(kind, g) is not None
        if has and yes < 2 * count // 3:
            yes += 1
        elif not has and no < count // 3:
            no += 1
        else:
            continue
        keep.append(g)
    # long flows with more outputs than inputs, on which the algorithm goes through several rounds
    more = count // 6 if kind != "causal" else 0
    while more:
        n = r.choice((6, 6, 7))
        g = F.random_graph(r, n, labels, r.uniform(0.25, 0.7), r.choice((2, 3)))
        got = F.find(kind, g)
        if got and len(got[1]) >= 4:
            keep.append(g)
            more -= 1
    return keep


def run(rep):
    thorough = rep.tier == "thorough"
    where = {k: method(rep, f"{OGM}.OpenGraph", m) for k, m in METHOD.items()}
    for k, m in METHOD.items():
        rep.analysed(where[k])
        rep.analysed(method(rep, f"{OGM}.OpenGraph", m + "_or_none"))

    def one(job):
        kind, og, meas = job
        key = f"{kind} on {og}" + (f" measured {meas}" if meas else "")
        at = where[kind].loc()
        with rep.guard(kind, key):
            want = F.find(kind, og)
            src = og.source(meas)
            ps = outcomes(rep, CORE, f"(lambda f: None if f is None else (type(f).__name__, [[k, sorted(v)] for k, v in f.correction_function.items()], [sorted(x) for x in f.partial_order_layers]))({src}.{METHOD[kind]}_or_none())", rec=8, models=True, arrays=True)
            if len(ps) != 1 or ps[0].guards:
                raise AnalysisError(f"{len(ps)} outcomes, {[show(a)[:60] for p in ps for a, _ in p.guards][:2]}")
            p = ps[0]
            if p.kind == "raise":
                rep.bad(kind, key, at, f"raises {p.value[0]}: {show(p.value[1])[:80]}")
                return
            got = plain(p.frozen)
            if want is None or got is None:
                rep.expect(want is None and got is None, kind, key, at, "there is a flow but none is found" if got is None else f"there is no flow but {got} is found")
            else:
                name, cf, layers = got
                cf = {k: set(v) for k, v in cf}
                bad = [f"it is a {name}"] if name != CLASS[kind] else []
                wrong = F.faults(kind, og, cf, [set(x) for x in layers])
                if wrong:
                    bad.append(f"the flow {cf} with layers {layers} breaks {sorted(map(str, wrong))[:3]}")
                elif delayed(kind, og, cf) != [set(x) for x in want[1]]:
                    bad.append(f"the flow {cf} needs the layers {delayed(kind, og, cf)} where {[sorted(x) for x in want[1]]} are possible")
                elif len(layers) != len(want[1]):
                    bad.append(f"there are {len(layers)} layers, {layers}, where {len(want[1])} are enough")
                if kind != "causal" and not F.focused(og, cf):
                    bad.append(f"the flow {cf} is not focused")
                rep.expect(not bad, kind, key, at, "; ".join(bad))

    def raising(job):
        kind, og = job
        key = f"{METHOD[kind]} on {og}"
        with rep.guard("raising", key):
            want = F.find(kind, og)
            ps = outcomes(rep, CORE, f"type({og.source()}.{METHOD[kind]}()).__name__", rec=8, models=True, arrays=True)
            if len(ps) != 1 or ps[0].guards:
                raise AnalysisError(f"{len(ps)} outcomes")
            p = ps[0]
            if want is None:
                rep.expect(p.kind == "raise" and p.value[0] == "OpenGraphError", "raising", key, where[kind].loc(), "no OpenGraphError although there is no flow")
            else:
                rep.expect(p.kind == "return" and p.value == CLASS[kind], "raising", key, where[kind].loc(), f"{p.kind} {show(p.value)[:80]} although there is a flow")

    jobs = []
    count = 2500 if thorough else 450
    for kind, top in (("causal", 6), ("gflow", 6 if thorough else 5), ("pauli", 6 if thorough else 5)):
        gs = graphs(kind, 11, count, top)
        jobs += [(one, (kind, g, None)) for g in gs]
        r = random.Random(3)
        jobs += [(one, (kind, g, {v: r.choice(F.MEAS[l][1:]) for v, l in g.labels.items()})) for g in gs[1::3]]
        jobs += [(raising, (kind, g)) for g in gs[:: 8]]
    rep.share(jobs, lambda j: j[0](j[1]))
    for k in METHOD:
        rep.floor(k, 500)
    rep.floor_total(2500)
