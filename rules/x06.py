"""X06: the circuit extracted from an open graph or a flow applies the map of the open graph."""

from itertools import product as cartesian
from random import Random

from rules.f01 import layered, text
from rules.f02 import REFERENCE, delayed
from rules.g01 import product
from rules.p09 import ANGLES, REGION, pat
from sa import branch as Br
from sa import flows as F
from sa import mat
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of circuit extraction on known open graphs with symbolic angles; exact linear maps over Q(e^{iπ/4})"
RULE = (
    "OpenGraph.to_circuit and PauliFlow.extract_circuit (on the flows that are found, and on every focused flow written by hand with any layers) are interpreted on open graphs with a Pauli flow: all planes with symbolic angles and multiples of a quarter turn, signed Paulis, inputs and outputs in any order, nodes which are both. "
    "The circuit must apply the map of the open graph with all outcomes zero, up to a factor. With more outputs than inputs the same is asked of the Pauli exponentials and of the images of X and Z, and the circuit must be refused, as are flows that are not focused and Clifford gates on outputs."
)
ASSUMPTIONS = ("open graphs of at most five nodes", "symbolic angles are not Pauli angles", "the models of networkx and numpy in sa/")
P = "graphix.flow.core"
TEXTS = {
    "XY": ("Measurement.XY(alpha)", "Measurement.XY(beta)", "Measurement.XY(gamma)", "Measurement.XY(0)", "Measurement.XY(0.5)", "Measurement.XY(1)", "Measurement.XY(1.5)"),
    "XZ": ("Measurement.XZ(alpha)", "Measurement.XZ(beta)", "Measurement.XZ(gamma)", "Measurement.XZ(0.5)", "Measurement.XZ(1)"),
    "YZ": ("Measurement.YZ(alpha)", "Measurement.YZ(beta)", "Measurement.YZ(gamma)", "Measurement.YZ(1.5)", "Measurement.YZ(1)"),
    "X": ("Measurement.X", "-Measurement.X"),
    "Y": ("Measurement.Y", "-Measurement.Y"),
    "Z": ("Measurement.Z", "-Measurement.Z"),
}


def pauli_of(ps, n):
    """Matrix of a Pauli string."""
    d = fields(ps)
    if d["dim"] != n:
        raise Bad(f"a Pauli string is on {show(d['dim'])} qubits instead of {n}")
    axes = dict_items(d["axes"])
    if not set(axes) <= set(range(n)):
        raise Bad(f"a Pauli string acts on the qubits {sorted(axes)} of {n}")
    m = mat.num(-1 if d["sign"].name == "MINUS" else 1)
    m = [[m]]
    for q in range(n):
        m = mat.kron(m, mat.GATES[axes[q].name] if q in axes else mat.eye(2))
    return m


def not_pauli(interp, bound, node):
    """A symbolic angle is not a Pauli angle."""
    me = interp.rd(bound["self"])
    a = me.fields["angle"] if hasattr(me, "fields") else fields(me)["angle"]
    return NotImplemented if is_num(interp.rd(a)) else None


class Bad(Exception):
    pass


def exponential(pe, n):
    """Twice exp(iθP)."""
    d = fields(pe)
    p = pauli_of(d["pauli_string"], n)
    one = mat.eye(1 << n)
    up, down = mat.ph(d["angle"], 1), mat.ph(d["angle"], -1)
    return mat.madd(mat.scale(mat.madd(one, p), up), mat.scale(mat.madd(one, mat.scale(p, mat.num(-1))), down))


def focused_flows(r, og, layers, count=400):
    """A focused correction function that fits the layers, and one that fits and is not focused, if there are any."""
    free = set(og.nodes) - set(og.ins)
    fits = [(v, [c for c in F.subsets(free) if not F.broken("pauli", og, v, c, fut)]) for v, fut in F.futures(og, layers)]
    good = [(v, [c for c in cs if F.focused(og, {v: c})]) for v, cs in fits]
    pick = lambda t: {v: r.choice(cs) for v, cs in t} if all(cs for _, cs in t) else None
    other = pick(fits)
    return pick(good), other if other and not F.focused(og, other) else None


def run(rep):
    cl = clifford_of(rep)
    thorough = rep.tier == "thorough"
    kw = {**ANGLES, **scope(rep), "hooks": {"graphix.measurements.BlochMeasurement.to_pauli_or_none": not_pauli}, "region": REGION}
    m1 = method(rep, "graphix.opengraph.OpenGraph", "to_circuit")
    m2 = method(rep, f"{P}.PauliFlow", "extract_circuit")
    rep.analysed(m1)
    rep.analysed(m2)
    for n in ("extraction.extraction_ps_from_corrected_node", "extraction.extend_input", "extraction.clifford_z_map_from_focused_flow", "extraction.clifford_x_map_from_focused_flow", "compilation.er_to_circuit", "compilation.pexp_ladder_pass", "compilation.cm_berg_pass"):
        if (f := rep.prog.funcs.get(f"graphix.circ_ext.{n}")) is not None:
            rep.analysed(f)

    def one(expr):
        ps = outcomes(rep, P, expr, rec=12, models=True, arrays=True, **kw)
        ps = [p for p in ps if not any(impossible(g) for g in p.guards)]
        return ps

    def impossible(g):
        """A symbolic angle taken to be a given number."""
        t, v = g
        return bool(v) and isinstance(t, Term) and t.op in ("eq", "eq0", "eqz")

    def value(expr):
        ps = one(expr)
        for p in ps:
            if p.kind != "return":
                raise Refused(p)
        if len(ps) != 1:
            raise AnalysisError(f"{len(ps)} outcomes")
        return ps[0].frozen

    maps = {}

    def reference(src):
        if src not in maps:
            cmds, ins, outs = pat(*seq(value(f"(lambda o: (lambda q: (list(q), q.input_nodes, q.output_nodes))({REFERENCE}(o)))({src})")))
            maps[src] = Br.run(cmds, ins, outs, dict.fromkeys(Br.measured(cmds), 0), cl)[0]
        return maps[src]

    def circuit(rule, key, at, expr, src, n):
        with rep.guard(rule, key):
            want = reference(src)
            ps = one(f"(lambda c: (c.instruction, c.width))({expr})")
            if not ps:
                raise AnalysisError("no outcome")
            why = None
            for p in ps:
                if p.kind != "return":
                    why = f"raises {p.value}"
                    break
                ins, width = seq(p.frozen)
                if width != n:
                    why = f"the circuit has {show(width)} qubits instead of {n}"
                    break
                if not mat.proportional(product(seq(ins), n), want):
                    why = f"the circuit {show(ins)[:300]} applies another map"
                    break
            rep.expect(why is None, rule, key, at.loc(), why)

    def isometry(rule, key, expr, og, src):
        with rep.guard(rule, key):
            n, k = len(og.outs), len(og.ins)
            pexps, layers, outs, xm, zm, ins = seq(value(f"(lambda e: ([(k, v) for k, v in e.pexp_dag.pauli_exponentials.items()], [list(s) for s in e.pexp_dag.partial_order_layers], e.pexp_dag.output_nodes, e.clifford_map.x_map, e.clifford_map.z_map, e.clifford_map.input_nodes))({expr})"))
            why = None
            try:
                if list(seq(outs)) != list(og.outs) or list(seq(ins)) != list(og.ins):
                    why = f"the inputs are {ins}, the outputs {outs}"
                pe = {a: b for a, b in map(seq, seq(pexps))}
                todo = [v for la in [set(seq(s)) for s in seq(layers)][1 if og.outs else 0 :] for v in la]
                if why is None and (set(pe) != set(og.labels) or sorted(todo) != sorted(og.labels)):
                    why = f"there are Pauli exponentials for {sorted(pe)}, in the layers {todo}"
                if why is None:
                    # what is left of the map without the exponentials, the last one first
                    m = reference(src)
                    for v in todo:
                        m = mat.mm(mat.dag(exponential(pe[v], n)), m)
                    if not any(any(row) for row in m):
                        raise AnalysisError("the map of the open graph vanishes")
                    for what, images in (("X", seq(xm)), ("Z", seq(zm))):
                        if why is None and len(images) != k:
                            why = f"there are {len(images)} images of {what}"
                        for i, im in enumerate(images if why is None else ()):
                            if mat.mm(m, mat.embed(mat.GATES[what], (i,), k)) != mat.mm(pauli_of(im, n), m):
                                why = f"the image of {what} on input {i} is {show(im)[:150]}, which is not what the open graph does"
                                break
            except Bad as e:
                why = str(e)
            rep.expect(why is None, rule, key, m2.loc(), why)

    def refused(rule, key, expr, names, at):
        with rep.guard(rule, key):
            ps = one(f"({expr}, 1)[1]")
            bad = next((p for p in ps if p.kind != "raise" or p.value[0] not in names), None)
            rep.expect(bad is None and ps, rule, key, at.loc(), f"{'is accepted' if bad and bad.kind == 'return' else 'raises ' + str(bad and bad.value)}, {' or '.join(names)} is due")

    def go(job):
        og, la, seed = job
        r = Random(seed)
        src = og.source({n: r.choice(TEXTS[l]) for n, l in og.labels.items()})
        key = f"{seed}: {src}"
        square = len(og.ins) == len(og.outs)
        if square:
            circuit("circuit of an open graph", key, m1, f"({src}).to_circuit()", src, len(og.outs))
        isometry("extraction of an open graph", key, f"({src}).to_pauliflow().extract_circuit()", og, src)
        if square and any(a in src for a in ("XY(0", "XY(1", "XZ(0", "XZ(1", "YZ(1")):
            inferred = f"({src}).infer_pauli_measurements()"
            circuit("circuit with inferred Pauli measurements", key, m1, f"{inferred}.to_circuit()", src, len(og.outs))
        if not square:
            refused("isometries", key, f"({src}).to_circuit()", ("NotImplementedError",), m1)
        good, other = focused_flows(r, og, la)
        lays = delayed(r, og, la)
        if good is not None:
            flow = f"PauliFlow({src}, {text(good)}, {layered(lays, r)})"
            if square:
                circuit("circuit of a focused flow", f"{key} {good} {lays}", m2, f"({flow}).extract_circuit().to_circuit()", src, len(og.outs))
            isometry("extraction of a focused flow", f"{key} {good} {lays}", f"({flow}).extract_circuit()", og, src)
        if other is not None:
            refused("flows that are not focused", f"{key} {other}", f"PauliFlow({src}, {text(other)}, {layered(la, r)}).extract_circuit()", ("ValueError",), m2)
        if og.outs and r.random() < 0.2:
            o = r.choice(og.outs)
            refused("Clifford gates on outputs", key, f"({src[:-1]}, {{{o}: Clifford.S}})).to_pauliflow().extract_circuit()", ("NotImplementedError",), m2)

    jobs, seen = [], {}
    r = Random("circuits")
    for i in range(40000 if thorough else 12000):
        n = r.choice((1, 2, 3, 3, 4, 4, 4, 5))
        og = F.random_graph(r, n, F.PLANES + F.AXES if r.random() < 0.7 else ("XY",), 0.6, r.choice((0, 0, 0, 1)))
        if not og.outs:
            continue
        shape = (n, tuple(sorted(og.labels.values())), len(og.ins), len(og.outs), list(og.ins) == sorted(og.ins))
        if seen.get(shape, 0) >= (3 if thorough else 1) * (8 if set(og.labels.values()) == {"XY"} else 1):
            continue
        if len(og.labels) > 4 or len(og.outs) > 3:
            continue
        got = F.find("pauli", og)
        if got is None:
            continue
        seen[shape] = seen.get(shape, 0) + 1
        jobs.append((og, got[1], f"x{i}"))
    rep.share(jobs, go)
    for k, n in (("circuit of an open graph", 100), ("circuit with inferred Pauli measurements", 40), ("extraction of an open graph", 200), ("circuit of a focused flow", 80), ("flows that are not focused", 20), ("isometries", 40)):
        rep.floor(k, n)
