"""F04: what is extracted from a pattern (open graph, corrections, flows) is what the pattern does."""

from random import Random

from rules.f01 import FLOW_ERRORS
from rules.f05 import corrections, solvable
from sa import flows as F
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation (exact folding) of extraction from command sequences of many shapes, compared with the open graph, corrections and flows given by moving Pauli corrections through each sequence by hand"
RULE = (
    "Patterns are written from labelled open graphs and correction functions: preparations and entanglements in any place, corrections as commands (once, or three times) before or after a Clifford gate or an entanglement, or as domains of the measurement, Clifford gates before measurements and on outputs. "
    "to_opengraph, to_xzcorrections, to_causalflow, to_gflow and to_pauliflow are interpreted on them, or on their standard form, and the results compared with what a Pauli frame tracked through the commands gives; a flow is due exactly when the definition holds."
)
ASSUMPTIONS = ("patterns of at most five nodes", "the models of networkx and numpy in sa/")
P = "graphix.pattern"
MEAS = {
    "XY": ("Measurement.XY(0.25)", "Measurement.XY(1.75)", "Measurement.XY(0.5)", "Measurement.XY(0)"),
    "XZ": ("Measurement.XZ(0.25)", "Measurement.XZ(1.25)", "Measurement.XZ(1)"),
    "YZ": ("Measurement.YZ(0.75)", "Measurement.YZ(1.5)", "Measurement.YZ(0.125)"),
    "X": ("Measurement.X", "-Measurement.X"),
    "Y": ("Measurement.Y", "-Measurement.Y"),
    "Z": ("Measurement.Z", "-Measurement.Z"),
}
GATES = ("H", "S", "SDG", "X", "Y", "Z", "H", "S")


def through(gates, x, z):
    """Pauli (x, z) moved across the gates, each of which acts on bits as its own inverse does."""
    for g in gates:
        if g == "H":
            x, z = z, x
        elif g in ("S", "SDG"):
            z = z ^ x
    return x, z


class Writer:
    """Commands of a pattern, with the Pauli frame of the standard form kept along."""

    def __init__(self, og, meas):
        self.og, self.meas = og, meas
        self.cmds = []
        self.frame = {n: [set(), set()] for n in og.nodes}
        self.gates = {n: [] for n in og.nodes}  # first one first
        self.edges = set()
        self.ready = set(og.ins)

    def prepare(self, n):
        if n not in self.ready:
            self.ready.add(n)
            self.cmds.append(f"N({n})")

    def entangle(self, a, b):
        self.prepare(a)
        self.prepare(b)
        assert not self.gates[a] and not self.gates[b]
        self.cmds.append(f"E(({a}, {b}))")
        self.edges ^= {frozenset((a, b))}
        self.frame[a][1] ^= self.frame[b][0]
        self.frame[b][1] ^= self.frame[a][0]

    def pauli(self, n, x, z, r, dom):
        """Command(s) that act as the given Pauli in the standard form, which is before the gates of the node."""
        self.prepare(n)
        fx, fz = through(self.gates[n], x, z)
        out = [f"X({n}, {dom})"] * fx + [f"Z({n}, {dom})"] * fz
        r.shuffle(out)
        for c in out:
            self.cmds += [c] * r.choice((1, 1, 1, 3))
        self.frame[n][0] ^= set(dom) if x else set()
        self.frame[n][1] ^= set(dom) if z else set()

    def gate(self, n, g):
        self.prepare(n)
        self.cmds.append(f"C({n}, Clifford.{g})")
        self.gates[n].append(g)

    def measure(self, n, r, sd, td):
        """Measurement in whose domains the corrections sd, td of the standard form go."""
        self.prepare(n)
        s, t = set(), set()
        for v in sd | td:
            fx, fz = through(self.gates[n], v in sd, v in td)
            s ^= {v} if fx else set()
            t ^= {v} if fz else set()
        m = self.meas[n]
        for g in self.gates[n]:  # undo the gates
            m = f"({m}).clifford(Clifford.{ {'S': 'SDG', 'SDG': 'S'}.get(g, g)})"
        dom = lambda d: str(d) if d else "set()"
        arg = f", {dom(s)}, {dom(t)}" if t else f", {dom(s)}" if s else ""
        self.cmds.append(f"M({n}, {m}{arg})")
        self.frame[n][0] ^= sd
        self.frame[n][1] ^= td


def write(og, x, z, la, r):
    meas = {n: r.choice(MEAS[l]) for n, l in og.labels.items()}
    w = Writer(og, meas)
    order = [n for lay in la[1 if og.outs else 0 :] for n in sorted(lay, key=lambda _: r.random())][::-1]
    edges = [tuple(r.sample(e, 2)) for e in og.edges]
    if r.random() < 0.3 and len(og.nodes) > 1:
        e = tuple(r.sample(sorted(og.nodes), 2))
        edges += [e, (e[1], e[0])] if r.random() < 0.5 else [e, e]
    r.shuffle(edges)
    lazy = r.random() < 0.6
    if not lazy:
        for n in r.sample(sorted(og.nodes), len(og.nodes)):
            w.prepare(n)
        for e in edges:
            w.entangle(*e)
        edges = []
    # corrections due, per target: [source, x?, z?]
    due = {n: [] for n in og.nodes}
    for d, k in ((x, 0), (z, 1)):
        for v, ws in d.items():
            for t in ws:
                both = [c for c in due[t] if c[0] == v]
                if both:
                    both[0][1 + k] = True
                else:
                    due[t].append([v, k == 0, k == 1])
    done = set()

    def correct(t, upto):
        """Writes some of the corrections due on a node."""
        for c in list(due[t]):
            if c[0] in done and r.random() < upto:
                due[t].remove(c)
                parts = [c] if r.random() < 0.5 else [[c[0], True, False]] * c[1] + [[c[0], False, True]] * c[2]
                for v, px, pz in parts:
                    w.pauli(t, px, pz, r, {v})

    def finish(n):
        """All entanglements of a node are made, then gates."""
        for e in [e for e in edges if n in e]:
            edges.remove(e)
            w.entangle(*e)
            # an X written before gives a Z on the neighbour: the frame says so, and it stays there
        if r.random() < 0.4:
            for _ in range(r.choice((1, 1, 2))):
                w.gate(n, r.choice(GATES))
                correct(n, 0.3)

    for n in order:
        if lazy and edges and r.random() < 0.3:
            e = edges.pop()
            w.entangle(*e)
        correct(n, 0.4)
        finish(n)
        correct(n, 0.5)
        sd = {c[0] for c in due[n] if c[1]}
        td = {c[0] for c in due[n] if c[2]}
        due[n] = []
        w.measure(n, r, sd, td)
        done.add(n)
        for t in sorted(og.nodes):
            if t not in done and (t in w.ready or r.random() < 0.3):
                correct(t, 0.3)
    for n in r.sample(list(og.outs), len(og.outs)):
        correct(n, 0.5)
        finish(n)
        correct(n, 1)
        w.prepare(n)
    # what the standard form has
    fx, fz = {}, {}
    for n, (a, b) in w.frame.items():
        for v in a:
            fx.setdefault(v, set()).add(n)
        for v in b:
            fz.setdefault(v, set()).add(n)
    return w, fx, fz


def layer_fault(og, x, z, la):
    """What is wrong with layers: they must put every node after those that correct it, and be as few as possible."""
    bad = F.correction_faults(og, x, z, la)
    if bad:
        return f"{sorted(map(str, bad))}"
    depth = F.chain(og, x, z)
    least = max(depth.values(), default=-1) + 1 + bool(og.outs)
    return None if len(la) == least else f"there are {len(la)} layers instead of {least}"


GET = (
    "(lambda p: (lambda o, c, l: (list(o.graph.nodes), list(o.graph.edges), o.input_nodes, o.output_nodes, [(k, m, e) for k, m in o.measurements.items() for j, e in EXPECTED if j == k], list(o.output_cliffords.items()), "
    "[(k, list(s)) for k, s in c.x_corrections.items()], [(k, list(s)) for k, s in c.z_corrections.items()], [list(s) for s in c.partial_order_layers], [list(s) for s in l], [(n, q) for n, q in c.og.measurements.items()], list(c.og.graph.nodes)))(p.to_opengraph(), p.to_xzcorrections(), p.partial_order_layers()))"
)


def run(rep):
    thorough = rep.tier == "thorough"
    loc = {}
    for n in ("to_opengraph", "to_xzcorrections", "to_causalflow", "to_gflow", "to_pauliflow"):
        m = method(rep, P + ".Pattern", n)
        rep.analysed(m)
        loc[n] = m.loc()
    for n in ("from_pattern", "to_opengraph", "to_xzcorrections", "partial_order_layers"):
        rep.analysed(method(rep, "graphix.optimization.StandardizedPattern", n))
    names = scope(rep)

    def one(expr):
        ps = outcomes(rep, P, expr, rec=12, models=True, arrays=True, **names)
        if len(ps) != 1 or ps[0].guards:
            raise AnalysisError(f"{len(ps)} outcomes")
        return ps[0]

    def extract(job):
        og0, x0, z0, la0, seed = job
        r = Random(seed)
        w, x, z = write(og0, x0, z0, la0, r)
        og = F.OG(og0.nodes, [tuple(sorted(e)) for e in w.edges], og0.ins, og0.outs, og0.labels)
        src = f"Pattern(input_nodes={list(og.ins)}, cmds=[{', '.join(w.cmds)}], output_nodes={list(og.outs)})"
        then = r.choice(("", "", "", "standardize", "minimize_space"))
        make = f"(lambda p: (p, p.{then}())[0])({src})" if then else src
        key = f"{seed}: {src[8:]} {then}"
        la = None
        with rep.guard("open graph and corrections", key):
            expected = f"[{', '.join(f'({n}, {m})' for n, m in w.meas.items())}]"
            p = one(f"{GET.replace('EXPECTED', expected)}({make})")
            if p.kind == "raise":
                rep.bad("open graph and corrections", key, loc["to_xzcorrections"], f"raises {p.value}")
                return
            nodes, edges, ins, outs, meas, cl, gx, gz, gl, pl, meas2, nodes2 = map(seq, seq(p.frozen))
            why = None
            la = [set(seq(s)) for s in gl]
            want = {frozenset(e) for e in og.edges}
            cdict = {k: v for k, v in map(seq, cl)}
            pairs = lambda t: {k: set(seq(s)) for k, s in map(seq, t) if seq(s)}
            if set(nodes) != set(og.nodes) or {frozenset(seq(e)) for e in edges} != want:
                why = f"the graph has nodes {nodes}, edges {edges}"
            elif list(ins) != list(og.ins) or list(outs) != list(og.outs):
                why = f"the inputs are {ins}, the outputs {outs}"
            elif sorted(seq(m)[0] for m in meas) != sorted(og.labels):
                why = f"the measured nodes are {[seq(m)[0] for m in meas]}"
            elif any(seq(m)[1] != seq(m)[2] for m in meas):
                why = next(f"the measurement of node {n} is {show(a)} instead of {show(b)}" for n, a, b in map(seq, meas) if a != b)
            elif {n: m for n, m in map(seq, meas2)} != {n: m for n, m, _ in map(seq, meas)} or set(nodes2) != set(nodes):
                why = "the open graph of the corrections is another one"
            elif pairs(gx) != x or pairs(gz) != z:
                why = f"the X corrections are {pairs(gx)} instead of {x}, the Z corrections {pairs(gz)} instead of {z}"
            elif bad := layer_fault(og, x, z, [set(seq(s)) for s in pl]):
                why = f"the layers of the pattern are {[seq(s) for s in pl]}: {bad}"
            elif bad := layer_fault(og, x, z, la):
                why = f"the layers of the corrections are {la}: {bad}"
            else:
                why = gates(cdict, w, og)
            rep.expect(why is None, "open graph and corrections", key, loc["to_opengraph"], why)
            if why is not None:
                return
        if la is None:
            return
        planar = all(len(l) == 2 for l in og.labels.values())
        cf = {"causal": {n: set(s) for n, s in x.items()}, "gflow": {n: set(x.get(n, ())) | ({n} if og.labels[n] in ("XZ", "YZ") else set()) for n in og.labels}}
        for kind, name in (("causal", "to_causalflow"), ("gflow", "to_gflow"), ("pauli", "to_pauliflow")):
            rule = {"causal": "causal flow", "gflow": "gflow", "pauli": "Pauli flow"}[kind]
            if kind != "pauli" and not planar and r.random() < 0.8 or kind == "causal" and r.random() < 0.5 and F.faults(kind, og, cf[kind], la):
                continue
            with rep.guard(rule, key):
                p = one(f"(lambda f: (type(f).__name__, [(k, list(s)) for k, s in f.correction_function.items()], [list(s) for s in f.partial_order_layers]))(({make}).{name}())")
                if kind == "pauli":
                    bad = bool(solvable(og, x, z, la)) and "no correction sets fit"
                elif not planar:
                    bad = "there are Pauli measurements"
                else:
                    bad = F.faults(kind, og, cf[kind], la)
                if p.kind == "raise":
                    ok = bad and (p.value[0] == "TypeError" if not planar and kind != "pauli" else p.value[0] in FLOW_ERRORS)
                    rep.expect(ok, rule if not bad else "no " + rule, key, loc[name], f"raises {p.value[0]}" + ("" if bad else " although the corrections are those of a flow"))
                    continue
                t, f, l = seq(p.frozen)
                got = {k: set(seq(s)) for k, s in map(seq, seq(f))}
                why = None
                if bad:
                    why = f"gives {got}, which is no flow: {bad}"
                elif t != {"causal": "CausalFlow", "gflow": "GFlow", "pauli": "PauliFlow"}[kind]:
                    why = f"gives a {t}"
                elif [set(seq(s)) for s in seq(l)] != la:
                    why = f"the layers are {l} instead of {la}"
                elif kind != "pauli" and got != cf[kind]:
                    why = f"the correction function is {got} instead of {cf[kind]}"
                elif F.faults(kind, og, got, la):
                    why = f"the correction function {got} is no flow"
                elif kind == "pauli":
                    gx, gz = corrections(og, got, la)
                    if {k: s for k, s in gx.items() if s} != x or {k: s for k, s in gz.items() if s} != z:
                        why = f"the correction function {got} has other corrections"
                rep.expect(why is None, rule if not bad else "no " + rule, key, loc[name], why)

    tables = {}

    def gates(cdict, w, og):
        for n in og.outs:
            want = "Clifford.I"
            for g in w.gates[n]:
                want = f"Clifford.{g} @ ({want})"
            if want not in tables:
                tables[want] = one(f"({want})").frozen
            ident = tables.setdefault("I", one("Clifford.I").frozen)
            if cdict.get(n, ident) != tables[want]:
                return f"the Clifford gate of output {n} is {show(cdict.get(n, ident))}, the product of {w.gates[n]} is due"
        if set(cdict) - set(og.outs):
            return f"there are Clifford gates on {sorted(cdict)}"
        return None

    def refuse(job):
        _, state, seed = job
        src = f"Pattern(input_nodes=[0], cmds=[N(1), N(2{state}), E((0, 1)), E((1, 2)), M(0, Measurement.XY(0.25)), X(1, {{0}}), Z(2, {{0}}), M(1, Measurement.XY(0.25)), X(2, {{1}})])"
        for name in loc:
            with rep.guard("states", f"{name} {state}"):
                p = one(f"(({src}).{name}(), 1)[1]")
                if not state or state.endswith("PLUS"):
                    rep.expect(p.kind == "return", "states", f"{name} {state}", loc[name], f"raises {p.value}")
                else:
                    rep.expect(p.kind == "raise" and p.value[0] == "ValueError", "states", f"{name} {state}", loc[name], "accepts a node that is not prepared as |+>" if p.kind == "return" else f"raises {p.value[0]}")

    def job_(job):
        (refuse if job[0] == "state" else extract)(job)

    jobs = [("state", s, 0) for s in ("", ", state=BasicStates.PLUS", ", state=BasicStates.ZERO", ", state=BasicStates.MINUS", ", state=BasicStates.PLUS_I", ", state=BasicStates.ONE")]
    for kind, count in (("causal", 900), ("gflow", 900), ("pauli", 1500)):
        seen = {}
        for i, (og, cf, la) in enumerate(F.candidates(kind, "extract", count * (4 if thorough else 1))):
            if F.layer_faults(og, la) or set(cf) - set(og.labels):
                continue
            x, z = corrections(og, cf, la)
            flow = not F.faults(kind, og, cf, la)
            shape = (len(og.nodes), tuple(sorted(og.labels.values())), flow)
            seen[shape] = seen.get(shape, 0) + 1
            if seen[shape] <= (8 if thorough else 2) * (3 if kind == "causal" else 2 if flow else 1):
                jobs.append((og, x, z, la, f"{kind}{i}"))
    rep.share(jobs, job_)
    for k, n in (("open graph and corrections", 300), ("causal flow", 30), ("no causal flow", 30), ("gflow", 60), ("no gflow", 60), ("Pauli flow", 100), ("no Pauli flow", 60)):
        rep.floor(k, n)
