"""Definitions of causal flow, gflow and Pauli flow on small labelled open graphs, by enumeration."""

from itertools import combinations
from random import Random

PLANES = ("XY", "XZ", "YZ")
AXES = ("X", "Y", "Z")


class OG:
    """Labelled open graph; `src` gives the source text of each measurement."""

    def __init__(self, nodes, edges, ins, outs, labels):
        self.nodes, self.edges, self.ins, self.outs, self.labels = tuple(nodes), tuple(edges), tuple(ins), tuple(outs), dict(labels)
        self.adj = {n: {b if a == n else a for a, b in self.edges if n in (a, b)} for n in self.nodes}

    def odd(self, s):
        out = set()
        for n in s:
            out ^= self.adj.get(n, set())
        return out

    def neighbors(self, s):
        return set().union(*(self.adj.get(n, set()) for n in s))

    def source(self, meas=None):
        meas = meas or {}
        m = ", ".join(f"{n}: {meas.get(n) or MEAS[l][0]}" for n, l in self.labels.items())
        return f"OpenGraph((lambda g: (g.add_nodes_from({list(self.nodes)}), g.add_edges_from({list(self.edges)}), g)[2])(nx.Graph()), {list(self.ins)}, {list(self.outs)}, {{{m}}})"

    def __repr__(self):
        return f"nodes {list(self.nodes)} edges {list(self.edges)} inputs {list(self.ins)} outputs {list(self.outs)} labels {self.labels}"


# source texts of measurements with a label
MEAS = {
    "XY": ("Plane.XY", "Measurement.XY(0.25)", "Measurement.XY(0)", "Measurement.XY(0.5)"),
    "XZ": ("Plane.XZ", "Measurement.XZ(0.3)", "Measurement.XZ(0.5)"),
    "YZ": ("Plane.YZ", "Measurement.YZ(0.7)", "Measurement.YZ(0)"),
    "X": ("Axis.X", "Measurement.X", "-Measurement.X"),
    "Y": ("Axis.Y", "Measurement.Y", "-Measurement.Y"),
    "Z": ("Axis.Z", "Measurement.Z", "-Measurement.Z"),
}


def subsets(s):
    s = sorted(s)
    for k in range(len(s) + 1):
        for c in combinations(s, k):
            yield set(c)


def broken(kind, og, node, c, future):
    """Propositions of the definition which the correction set `c` of a node breaks, `future` being the nodes after it."""
    lab = og.labels[node]
    out = set()
    now = set(og.nodes) - future
    odd = og.odd(c)
    if kind == "causal":
        nb = og.neighbors(c)
        if len(c) != 1:
            out.add("C0")
        if lab != "XY":
            out.add("XYPlane")
        if node not in nb:
            out.add("C1")
        if c & now:
            out.add("C2")
        if (nb - {node}) & now:
            out.add("C3")
        return out
    inp, ino = node in c, node in odd
    if kind == "gflow":
        if (c - {node}) & now:
            out.add("G1")
        if (odd - {node}) & now:
            out.add("G2")
        if lab == "XY" and not (not inp and ino):
            out.add("G3")
        if lab == "XZ" and not (inp and ino):
            out.add("G4")
        if lab == "YZ" and not (inp and not ino):
            out.add("G5")
        return out
    for j in now - {node}:
        lj = og.labels.get(j)
        if j in c and lj not in ("X", "Y"):
            out.add("P1")
        if j in odd and lj not in ("Y", "Z"):
            out.add("P2")
        if lj == "Y" and (j in c) != (j in odd):
            out.add("P3")
    ok = {"XY": not inp and ino, "XZ": inp and ino, "YZ": inp and not ino, "X": ino, "Z": inp, "Y": inp != ino}[lab]
    if not ok:
        out.add({"XY": "P4", "XZ": "P5", "YZ": "P6", "X": "P7", "Z": "P8", "Y": "P9"}[lab])
    return out


def layer_faults(og, layers):
    """Faults of a partial order given as layers: {(reason, index of the layer)}."""
    out = set()
    if not layers:
        if og.nodes:
            out.add(("Empty", None))
        return out
    shift = 0
    measured = set(og.labels)
    if og.outs:
        shift = 1
        if set(layers[0]) != set(og.outs):
            out.add(("FirstLayer", 0))
    for i, la in enumerate(layers):
        if i < shift:
            continue
        if not la or not set(la) <= measured or any(set(la) & set(x) for j, x in enumerate(layers) if j != i and j >= shift):
            out.add(("NthLayer", i))
    if set(og.outs).union(*map(set, layers[shift:])) != set(og.nodes):
        out.add(("IncorrectNodes", None))
    return out


def faults(kind, og, cf, layers):
    """What a correction function and layers break: {(reason, node or layer or None)}."""
    out = set()
    if set(cf) != set(og.labels):
        out.add(("IncorrectCorrectionFunctionDomain", None))
    if not set().union(*cf.values()) <= set(og.nodes) - set(og.ins):
        out.add(("IncorrectCorrectionFunctionImage", None))
    out |= layer_faults(og, layers)
    for node, future in futures(og, layers):
        if node in cf and node in og.labels:
            for r in broken(kind, og, node, set(cf[node]), future):
                out.add((r, None if r == "XYPlane" else node))
    return out


def futures(og, layers):
    """(node, nodes after it) for the nodes in the layers."""
    done = set(og.outs)
    for la in layers[1 if og.outs else 0 :]:
        for n in la:
            yield n, set(done)
        done |= set(la)


def find(kind, og):
    """(correction function, layers) with as few layers as possible, taking the first correction set found; None if there is no flow."""
    done = set(og.outs)
    layers = [set(og.outs)] if og.outs else []
    cf = {}
    free = set(og.nodes) - set(og.ins)
    sets = list(subsets(free)) if kind != "causal" else [{x} for x in free]
    while len(done) < len(og.nodes):
        new = set()
        for n in og.nodes:
            if n not in done:
                for c in sets:
                    if not broken(kind, og, n, c, done):
                        cf[n] = c
                        new.add(n)
                        break
        if not new:
            return None
        layers.append(new)
        done |= new
    return cf, layers


def focused(og, cf):
    for n, c in cf.items():
        odd = og.odd(c)
        for v in set(og.labels) - {n}:
            lab = og.labels[v]
            if v in c and lab not in ("XY", "X", "Y"):
                return False
            if v in odd and lab not in ("XZ", "YZ", "Y", "Z"):
                return False
            if lab == "Y" and (v in c) != (v in odd):
                return False
    return True


def random_graph(r, n, labels, edge=0.55, extra=None):
    """Random labelled open graph; with ``extra``, this many more outputs than inputs."""
    names = r.sample(range(n + 2), n)
    edges = [(a, b) for a, b in combinations(names, 2) if r.random() < edge]
    ins = r.sample(names, min(n, r.choice((0, 1, 1, 2))))
    outs = r.sample(names, min(n, r.choice((0, 1, 1, 2, 2)) if extra is None else len(ins) + extra))
    return OG(names, edges, ins, outs, {v: r.choice(labels) for v in names if v not in outs})


def candidates(kind, seed, count):
    """Open graphs with correction functions and layers, some of which are flows and some nearly so."""
    labels = {"causal": ("XY",), "gflow": PLANES, "pauli": PLANES + AXES}[kind]
    r = Random(f"{kind} {seed}")
    found = 0
    while count:
        n = r.choice((1, 2, 3, 3, 4, 4, 5) if kind == "causal" else (1, 2, 3, 3, 4))
        og = random_graph(r, n, labels)
        got = find(kind, og)
        if got is None:
            if r.random() < 0.9:
                continue
            cf = {v: set(r.sample(og.nodes, r.randint(0, min(2, n)))) for v in og.labels}
            layers = ([set(og.outs)] if og.outs else []) + [{v} for v in og.labels]
        else:
            cf, layers = got
            # any correction set that fits, not only the first
            for v, fut in list(futures(og, layers)):
                fit = [c for c in subsets(set(og.nodes) - set(og.ins)) if not broken(kind, og, v, c, fut)]
                cf[v] = r.choice(fit)
            cf, layers = dict(cf), list(map(set, layers))
        count -= 1
        for _ in range(r.choice((0, 1, 1, 1, 2))):
            og, cf, layers = perturb(r, kind, og, cf, layers)
        yield og, cf, layers


def perturb(r, kind, og, cf, layers):
    cf = {k: set(v) for k, v in cf.items()}
    layers = [set(x) for x in layers]
    what = r.choice(("member", "member", "label", "move", "merge", "swap", "split", "edge", "drop", "extra", "unknown", "twice", "empty", "input", "output", "nodes", "none", "swapsets"))
    if what == "member" and cf:
        k = r.choice(sorted(cf))
        cf[k] ^= {r.choice(og.nodes)}
    elif what == "label" and og.labels:
        lab = dict(og.labels)
        lab[r.choice(sorted(lab))] = r.choice(PLANES if kind != "pauli" else PLANES + AXES)
        og = OG(og.nodes, og.edges, og.ins, og.outs, lab)
    elif what == "move" and og.labels and layers:
        v = r.choice(sorted(og.labels))
        for x in layers:
            x.discard(v)
        r.choice(layers).add(v)
    elif what == "merge" and len(layers) > 2:
        i = r.randrange(1 if og.outs else 0, len(layers) - 1)
        layers[i : i + 2] = [layers[i] | layers[i + 1]]
    elif what == "swap" and len(layers) > 1:
        i = r.randrange(len(layers) - 1)
        layers[i], layers[i + 1] = layers[i + 1], layers[i]
    elif what == "split":
        i = r.randrange(len(layers)) if layers else 0
        if layers and len(layers[i]) > 1:
            v = r.choice(sorted(layers[i]))
            layers[i].discard(v)
            layers.insert(i + r.randint(0, 1), {v})
    elif what == "edge" and len(og.nodes) > 1:
        e = tuple(r.sample(og.nodes, 2))
        edges = [x for x in og.edges if set(x) != set(e)]
        og = OG(og.nodes, edges + ([] if len(edges) < len(og.edges) else [e]), og.ins, og.outs, og.labels)
    elif what == "drop" and cf:
        del cf[r.choice(sorted(cf))]
    elif what == "extra" and og.outs:
        cf[r.choice(og.outs)] = set()
    elif what == "unknown" and layers:
        r.choice(layers).add(99)
    elif what == "twice" and layers and og.nodes:
        r.choice(layers).add(r.choice(og.nodes))
    elif what == "empty":
        layers.insert(r.randint(0, len(layers)), set())
    elif what == "input":
        v = r.choice(og.nodes)
        og = OG(og.nodes, og.edges, [x for x in og.ins if x != v] if v in og.ins else [*og.ins, v], og.outs, og.labels)
    elif what == "output" and layers:
        layers[0] ^= {r.choice(og.nodes)}
    elif what == "nodes" and layers:
        x = r.choice(layers)
        if x:
            x.discard(r.choice(sorted(x)))
    elif what == "none" and r.random() < 0.3:
        layers = []
    elif what == "swapsets" and len(cf) > 1:
        a, b = r.sample(sorted(cf), 2)
        cf[a], cf[b] = cf[b], cf[a]
    return og, cf, layers


# --- corrections
def chain(og, x, z):
    """Longest-path layer of each measured node by what its outcome corrects; None if corrections loop."""
    succ = {v: (set(x.get(v, ())) | set(z.get(v, ()))) - set(og.outs) for v in og.labels}
    depth = {}

    def go(v, seen):
        if v in seen:
            return None
        if v not in depth:
            d = 0
            for w in succ.get(v, ()):
                k = go(w, seen | {v})
                if k is None:
                    return None
                d = max(d, k + 1)
            depth[v] = d
        return depth[v]

    for v in og.labels:
        if go(v, frozenset()) is None:
            return None
    return depth


def correction_faults(og, x, z, layers):
    out = set()
    if not set(x) | set(z) <= set(og.labels):
        out.add(("IncorrectKeys", None))
    out |= layer_faults(og, layers)
    for v, fut in futures(og, layers):
        for d, r in ((x, "X"), (z, "Z")):
            if set(d.get(v, ())) - fut:
                out.add((r, v))
    return out


def spread(kind, seed, pool, single, several):
    """Candidates chosen so that each combination of faults appears: up to `single` with a lone fault or none, up to `several` of each other combination."""
    count = {}
    for og, cf, layers in candidates(kind, seed, pool):
        key = frozenset(r for r, _ in faults(kind, og, cf, layers))
        n = count.get(key, 0)
        if n < (6 * single if not key else single if len(key) == 1 else several):
            count[key] = n + 1
            yield og, cf, layers


def pairs(kind, seed):
    """Correction functions on two measured nodes u and v where v's set fits, and u's set has every combination of: u and v in it and in its odd neighbourhood, their labels, which comes first, and whether they are neighbours."""
    labels = {"gflow": PLANES, "pauli": PLANES + AXES}[kind]
    r = Random(f"pairs {kind} {seed}")
    for lu in labels:
        for lv in labels:
            for rel in ("before", "same", "after"):
                for bits in range(16):
                    edge = r.random() < 0.5
                    u, v, ou, ov = r.sample(range(6), 4)
                    edges = [(u, ou), (v, ov), *([(u, v)] if edge else [])]
                    r.shuffle(edges)
                    og = OG([u, v, ou, ov], edges, [], [ou, ov], {u: lu, v: lv})
                    cv = {"XZ": {v, ov}, "YZ": {v}, "Z": {v}}.get(lv, {ov})
                    if edge and v in cv:
                        cv = cv | {ou}
                    cu = ({u} if bits & 1 else set()) | ({v} if bits & 2 else set())
                    odd = og.odd(cu)
                    cu |= {o for o, n, b in ((ou, u, 4), (ov, v, 8)) if (n in odd) != bool(bits & b)}
                    outs = {ou, ov}
                    la = {"before": [outs, {u}, {v}], "same": [outs, {u, v}], "after": [outs, {v}, {u}]}[rel]
                    yield kind, og, {u: cu, v: cv}, la, f"{lu} {lv} {rel} {bits}"
