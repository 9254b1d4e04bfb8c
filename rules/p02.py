"""P02: relabelling and composing patterns and open graphs."""

import random
from itertools import combinations

from sa import branch as Br
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of relabelling and composition on patterns and open graphs of many shapes and mappings, against the documented construction"
RULE = (
    "reindex, node_mapping and compose are interpreted on command sequences with every kind of command and on open graphs with Clifford gates on outputs, under many partial mappings (merging, renaming, shifting, out of order), and the result is compared with the one built from the definition: "
    "commands (nodes and domains), input and output order, mapping completed in ascending order above every label in use, measurements and Clifford gates of merged nodes; the originals must be left as they were; mappings that the documentation excludes must be refused, and those only."
)
ASSUMPTIONS = ("patterns of at most five nodes", "the Clifford gate applied to a measurement is taken as verified by K04")
P = "graphix.pattern"
MEAS = ("Measurement.XY(alpha)", "Measurement.XZ(0.25)", "Measurement.YZ(beta)", "Measurement.X", "-Measurement.Z", "Measurement.Y")
STATES = ("", ", BasicStates.ZERO", ", BasicStates.MINUS_I")


def text(s):
    return "{" + ", ".join(map(str, sorted(s))) + "}" if s else "set()"


def shape(r, n, pool, kinds=True):
    """(inputs, commands, outputs): commands as (kind, nodes, domains, rest)."""
    nodes = r.sample(pool, n)
    ins = nodes[: r.randint(0, min(2, n))]
    alive, done, cmds = list(ins), [], []
    rest = nodes[len(ins):]
    while rest or r.random() < 0.8:
        k = r.choice("NNEEMXZC" + ("ST" if kinds else ""))
        if k == "N" and rest:
            v = rest.pop()
            cmds.append(("N", (v,), (), r.choice(STATES)))
            alive.append(v)
        elif k == "E" and len(alive) > 1:
            cmds.append(("E", tuple(r.sample(alive, 2)), (), ""))
        elif k == "M" and len(alive) > 1:
            v = r.choice(alive)
            cmds.append(("M", (v,), ({x for x in done if r.random() < 0.5}, {x for x in done if r.random() < 0.5}), r.choice(MEAS)))
            alive.remove(v)
            done.append(v)
        elif k in "XZ" and alive and done:
            cmds.append((k, (r.choice(alive),), ({x for x in done if r.random() < 0.6},), ""))
        elif k == "S" and done:
            cmds.append(("S", (r.choice(done),), ({x for x in done if r.random() < 0.6},), ""))
        elif k == "C" and alive:
            cmds.append(("C", (r.choice(alive),), (), r.choice((", Clifford.H", ", Clifford.S", ", Clifford(17)"))))
        elif k == "T" and r.random() < 0.3:
            cmds.append(("T", (), (), ""))
    outs = list(alive)
    r.shuffle(outs)
    return ins, cmds, outs


def render(c, f=lambda v: v):
    k, nodes, domains, rest = c
    if k == "E":
        return f"E(({f(nodes[0])}, {f(nodes[1])}))"
    if k == "T":
        return "T()"
    if k == "M":
        return f"M({f(nodes[0])}, {rest}, {', '.join(text({f(x) for x in d}) for d in domains)})"
    return f"{k}({f(nodes[0])}{''.join(', ' + text({f(x) for x in d}) for d in domains)}{rest})"


def source(sh):
    ins, cmds, outs = sh
    return f"(lambda p: (p.reorder_output_nodes({outs}), p)[1])(Pattern(input_nodes={ins}, cmds=[{', '.join(map(render, cmds))}]))"


def nodes_of(sh):
    return set(sh[0]) | {v for k, vs, _, _ in sh[1] for v in vs}


def run(rep):
    names = scope(rep)
    kw = {"alpha": Term("var", "alpha", typ=("prim", "float")), "beta": Term("var", "beta", typ=("prim", "float")), **names}
    thorough = rep.tier == "thorough"
    r = random.Random(11)
    at = {m: method(rep, P + ".Pattern", m) for m in ("reindex", "node_mapping", "compose")}
    og_at = method(rep, "graphix.opengraph.OpenGraph", "compose")
    for m in (*at.values(), og_at):
        rep.analysed(m)
    for k in ("N", "E", "M", "C", "X", "Z", "S"):
        rep.analysed(method(rep, f"graphix.command.{k}", "reindex"))

    def commands(sh, f=lambda v: v):
        """The commands of a shape under a relabelling, as terms."""
        body = ", ".join(render(c, f) for c in sh[1])
        return [norm(x) for x in seq(fold(rep, P, f"[{body}]", rec=8, models=True, **kw))]

    def get(expr, setup=None):
        """Values of a single path."""
        ps = outcomes(rep, P, expr, rec=8, models=True, setup=setup, **kw)
        if any(p.kind != "return" for p in ps):
            raise Refused(next(p for p in ps if p.kind != "return"))
        if len(ps) != 1:
            raise AnalysisError(f"{len(ps)} outcomes")
        return seq(ps[0].frozen)

    PAT = "(lambda q: (list(q), q.input_nodes, q.output_nodes))"

    def differs(got, want_cmds, ins, outs):
        cmds, i, o = seq(got)
        cmds = [norm(x) for x in seq(cmds)]
        if list(Br.items(i)) != list(ins):
            return f"the inputs are {Br.items(i)} instead of {list(ins)}"
        if list(Br.items(o)) != list(outs):
            return f"the outputs are {Br.items(o)} instead of {list(outs)}"
        if len(cmds) != len(want_cmds):
            return f"there are {len(cmds)} commands instead of {len(want_cmds)}"
        for x, y in zip(cmds, want_cmds, strict=True):
            if x != y:
                return f"the command {x[:200]} is found where {y[:200]} is due"
        return None

    def reindex(job):
        sh, how, mp, copy = job
        f = (lambda v: mp.get(v, v)) if isinstance(mp, dict) else eval(mp)  # noqa: S307
        key = f"{how} {mp}{', copy' if copy else ''}: {brief(sh)}"
        with rep.guard("reindex", key):
            arg_ = "" if how == "default" else f"{mp}, "
            got = get(f"(lambda p: (lambda q: ({PAT}(q), {PAT}(p), q is p))(p.reindex({arg_}copy={copy})))({source(sh)})")
            why = differs(got[0], commands(sh, f), map(f, sh[0]), map(f, sh[2]))
            if why is None and copy:
                why = differs(got[1], commands(sh), sh[0], sh[2])
                why = why and "the original is changed: " + why
            if why is None and not copy and got[2] is not True:
                why = "the pattern returned is not the one that was changed"
            rep.expect(why is None, "reindex", key, at["reindex"].loc(), why)

    def mapping(job):
        sh, mp, start, avoids, preserves = job
        nodes = nodes_of(sh)
        key = f"{mp} start {start} avoids {avoids} preserves {preserves} nodes {sorted(nodes)}"
        expr = f"({source(sh)}).node_mapping({mp}, start={start}, avoids={avoids}, preserves={preserves})"
        bad_keys = mp is not None and (set(mp) - nodes or len(set(mp.values())) < len(mp))
        with rep.guard("mapping", key):
            ps = outcomes(rep, P, expr, rec=8, models=True, setup=order_of(start), **kw)
            if bad_keys:
                rep.expect(all(p.kind == "raise" and p.value[0] == "ValueError" for p in ps), "mapping", key, at["node_mapping"].loc(), "a mapping that is not injective, or of nodes that do not exist, is accepted")
                return
            want, used, c = dict(mp or {}), set(avoids or ()) | set(preserves or ()) | set((mp or {}).values()), start
            for v in sorted(nodes):
                if v in want or v in (preserves or ()):
                    continue
                while c in used:
                    c += 1
                want[v] = c
                c += 1
            got = {tuple(Br.items(x)) for o in (0, 1) for x in get(f"(lambda d: [(k, d[k]) for k in d])({expr})", order_of(o))}
            got = dict(sorted(got)) if len(got) == len({k for k, _ in got}) else sorted(got)
            rep.expect(got == want, "mapping", key, at["node_mapping"].loc(), f"is {got} instead of {want}")

    def compose(job):
        a, b, mp, keep = job
        key = f"{mp}{' preserving' if keep else ''}: {brief(a)} then {brief(b)}"
        n1, n2, o1, i2 = nodes_of(a), nodes_of(b), set(a[2]), set(b[0])
        wrong = None
        if set(mp) - n2:
            wrong = "a node which the second pattern does not have"
        elif len(set(mp.values())) < len(mp):
            wrong = "two nodes with the same label"
        elif set(mp.values()) & (n1 - o1):
            wrong = "the label of a measured node"
        elif any(v in o1 and k not in i2 for k, v in mp.items()):
            wrong = "an output merged with a node that is not an input"
        expr = f"(lambda a, b: (lambda c: ({PAT}(c[0]), [(k, c[1][k]) for k in c[1]], {PAT}(a), {PAT}(b)))(a.compose(b, {mp}, preserve_mapping={keep})))({source(a)}, {source(b)})"
        with rep.guard("compose", key):
            if wrong:
                ps = outcomes(rep, P, expr, rec=8, models=True, **kw)
                rep.expect(all(p.kind == "raise" and p.value[0] == "PatternError" for p in ps), "refused", key, at["compose"].loc(), f"accepts {wrong}")
                return
            full = dict(mp)
            c = max([*n1, *mp.values()], default=-1) + 1
            for v in sorted(n2 - set(mp)):
                full[v] = c
                c += 1
            f = full.__getitem__
            merged = o1 & set(mp.values())
            ins = a[0] + [f(v) for v in b[0] if f(v) not in merged]
            outs = [v for v in a[2] if v not in merged] + [f(v) for v in b[2]]
            if keep and len(merged) == len(b[0]) == len(b[2]):
                io = {f(x): f(y) for x, y in zip(b[0], b[2], strict=True)}
                outs = [io.get(v, v) if v in merged else v for v in a[2]]
            got = get(expr, order_of(len(b[1])))
            why = differs(got[0], commands(a) + commands(b, f), ins, outs)
            m = dict(Br.items(x) for x in seq(got[1]))
            if why is None and m != full:
                why = f"the mapping is {m} instead of {full}"
            why = why or (w := differs(got[2], commands(a), a[0], a[2])) and "the first pattern is changed: " + w or (w := differs(got[3], commands(b), b[0], b[2])) and "the second pattern is changed: " + w
            rep.expect(why is None, "compose", key, at["compose"].loc(), why)

    jobs = []
    for k in range(120 if thorough else 40):
        n = r.randint(1, 5)
        sh = shape(r, n, range(12))
        ns = sorted(nodes_of(sh))
        how = ("default", "dict", "dict", "function", "swap")[k % 5]
        if how == "default":
            mp = {v: i for i, v in enumerate(ns)}
        elif how == "dict":
            keys = r.sample(ns, r.randint(0, len(ns)))
            left = [x for x in range(20) if x not in ns or x in keys]
            mp = dict(zip(keys, r.sample(left, len(keys)), strict=True))
        elif how == "function":
            mp = r.choice(("lambda v: v + 7", "lambda v: 30 - v", "lambda v: -1 - v"))
        else:
            perm = r.sample(ns, len(ns))
            mp = dict(zip(ns, perm, strict=True))
        jobs.append((reindex, (sh, how, mp, bool(k % 2))))
    # every kind of command, with domains that the relabelling permutes or shifts
    doms = [set(c) for n in (0, 1, 2, 3) for c in combinations(range(3), n)]
    every = [("M", (3 + i,), (d, e), MEAS[i % 6]) for i, (d, e) in enumerate((d, e) for d in doms for e in doms)]
    every += [(k, (3 + i,), (d,), "") for k in "XZS" for i, d in enumerate(doms)]
    every += [("E", (x, y), (), "") for x in range(4) for y in range(4) if x != y] + [("C", (2,), (), ", Clifford.H"), ("N", (1,), (), STATES[1])]
    for mp in ("lambda v: v + 1", "lambda v: v - 1", "lambda v: (v + 1) % 3 if v < 3 else v", "lambda v: 2 - v if v < 3 else v", {0: 1, 1: 0}, {0: 2, 2: 5, 5: 0}, {1: 2, 2: 90}):
        jobs.append((reindex, (([0, 1], every, [0, 1]), "function" if isinstance(mp, str) else "dict", mp, True)))
    for k in range(60 if thorough else 25):
        sh = shape(r, r.randint(1, 5), range(7), kinds=False)
        ns = sorted(nodes_of(sh))
        mp = r.choice((None, {v: r.randint(0, 9) for v in r.sample(ns, r.randint(0, len(ns)))}, dict(zip(r.sample(ns, len(ns)), r.sample(range(9), len(ns)), strict=True)) if len(ns) < 9 else None, {ns[0]: 4, 55: 3}))
        jobs.append((mapping, (sh, mp, r.choice((0, 0, 3, 6)), r.choice((None, [0, 1, 4], {7})), r.choice((None, ns[:1], {ns[-1]}, ns[-2:])))))
    row = ([2, 0], [("N", (v,), (), "") for v in (1, 3, 5)], [0, 1, 2, 3, 5])
    for pres in ([0], {1, 2}, (3,), [5, 0]):
        for mp in (None, {1: 9} if 1 not in pres else {2: 0} if 2 not in pres else None):
            jobs += [(mapping, (row, mp, start, avoids, pres)) for start in (0, 1) for avoids in (None, {2})]
    for mp in ({1: 0}, {0: 2}, {5: 1, 3: 2}, {2: 5}, {0: 3, 3: 0}):
        jobs += [(mapping, (row, mp, start, avoids, None)) for start in (0, 2) for avoids in (None, set(), {1}, [0, 3])]
    a = ([0, 1], [("E", (0, 1), (), ""), ("M", (0,), (set(), set()), MEAS[0]), ("N", (2,), (), ""), ("M", (1,), ({0}, set()), MEAS[1])], [2])
    b = ([5], [("N", (6,), (), ""), ("N", (7,), (), ""), ("E", (5, 6), (), ""), ("M", (6,), (set(), set()), MEAS[2]), ("M", (5,), (set(), {6}), MEAS[3]), ("X", (7,), ({5},), "")], [7])
    for k in (5, 6, 7):
        jobs += [(compose, (a, b, {k: v}, False)) for v in (0, 1, 2, 3)]
    jobs += [(compose, (a, b, {5: 2, 6: 2}, False)), (compose, (a, b, {5: 2, 8: 3}, False)), (compose, (a, b, {5: 2, 7: 5, 6: 7}, False))]
    done = 0
    k = 0
    while done < (300 if thorough else 120):
        k += 1
        a, b = shape(r, r.randint(1, 4), range(9), kinds=False), shape(r, r.randint(1, 4), r.choice((range(9), range(5, 14))), kinds=k % 3 == 0)
        n1, n2 = sorted(nodes_of(a)), sorted(nodes_of(b))
        mp = {}
        # inputs on outputs, then some renaming
        free = list(a[2])
        r.shuffle(free)
        for v in b[0]:
            if free and r.random() < 0.75:
                mp[v] = free.pop()
        for v in n2:
            if v not in mp and r.random() < 0.25:
                w = r.choice([x for x in range(16) if x not in n1 and x not in mp.values()])
                mp[v] = w
        keep = k % 4 == 0 or k % 4 == 1 and len(b[0]) == len(b[2])
        if k % 3 == 2:
            how = r.choice("kdmooo")
            if how == "k":
                mp[40] = 41
            elif how == "d" and len(n2) > 1:
                x, y = r.sample(n2, 2)
                mp[x] = mp[y] = 17
            elif how == "m" and set(n1) - set(a[2]):
                mp[r.choice(n2)] = r.choice(sorted(set(n1) - set(a[2])))
            elif how == "o" and a[2] and set(n2) - set(b[0]):
                mp[r.choice(sorted(set(n2) - set(b[0])))] = r.choice(a[2])
        jobs.append((compose, (a, b, mp, keep)))
        done += 1
    jobs += [(compose, (a, b, {}, False)) for a in (([], [], []), ([0], [], [0])) for b in (([], [], []), ([2, 1], [("E", (1, 2), (), "")], [1, 2]))]
    # the case the flag is for: as many inputs, outputs and merged nodes, in another order
    for outs, ins in ((([3, 5, 4]), [0, 1]), ([4, 3, 5], [1, 0])):
        a = ([3, 4, 5], [("E", (3, 4), (), "")], outs)
        b = (ins, [("N", (2,), (), ""), ("N", (6,), (), ""), ("M", (ins[0],), (set(), set()), MEAS[0]), ("M", (ins[1],), ({ins[0]}, set()), MEAS[3])], [6, 2])
        for mp in ({0: 3, 1: 5}, {0: 5, 1: 4}, {1: 3, 0: 4, 2: 9}):
            for keep in (False, True):
                jobs.append((compose, (a, b, mp, keep)))

    def og(job):
        a, b, mp = job
        key = f"{mp}: {a} then {b}"
        with rep.guard("open graphs", key):
            wrong = set(mp) - set(b["nodes"]) or len(set(mp.values())) < len(mp)
            clash = any(k in b["meas"] and v in a["meas"] and a["meas"][v] != b["meas"][k] for k, v in mp.items())
            expr = f"(lambda a, b: (lambda c: ({OGV}(c[0]), [(k, c[1][k]) for k in c[1]], {OGV}(a), {OGV}(b)))(a.compose(b, {mp})))({og_source(a)}, {og_source(b)})"
            if wrong or clash:
                ps = outcomes(rep, "graphix.opengraph", expr, rec=8, models=True, **kw2)
                ok = all(p.kind == "raise" and p.value[0] == ("ValueError" if wrong else "OpenGraphError") for p in ps)
                rep.expect(ok, "refused", key, og_at.loc(), "accepts " + ("a mapping of unknown nodes or not injective" if wrong else "nodes with different measurements"))
                return
            full = dict(mp)
            c = max([*a["nodes"], *mp.values()], default=-1) + 1
            for v in sorted(set(b["nodes"]) - set(mp)):
                full[v] = c
                c += 1
            merged = set(full.values()) & set(a["nodes"])
            back = {v: k for k, v in full.items()}

            def ports(x, y):
                y = [full[v] for v in y]
                return [v for v in x if v not in merged or v in y] + [v for v in y if v not in merged]

            meas, cliff = {}, {}
            outs = ports(a["outs"], b["outs"])
            for v in set(a["nodes"]) | set(full.values()):
                ma, mb = a["meas"].get(v), b["meas"].get(back.get(v))
                ca, cb = a["cl"].get(v), b["cl"].get(back.get(v))
                if ma and v in merged and cb:
                    meas[v] = f"{par(ma)}.clifford({cb})"
                elif mb and v in merged and ca:
                    meas[v] = f"{par(mb)}.clifford({ca})"
                elif ma or mb:
                    meas[v] = ma or mb
                if v in outs and (ca or cb):
                    cliff[v] = f"{cb} @ {ca}" if ca and cb else ca or cb
            want = fold(rep, "graphix.opengraph", f"([{', '.join(f'({v}, {m})' for v, m in sorted(meas.items()))}], [{', '.join(f'({v}, {m})' for v, m in sorted(cliff.items()))}])", rec=8, models=True, **kw2)
            wm, wc = ({seq(x)[0]: norm(seq(x)[1]) for x in seq(y)} for y in seq(want))
            edges = {frozenset(e) for e in a["edges"]} | {frozenset(full[x] for x in e) for e in b["edges"]}
            ps = outcomes(rep, "graphix.opengraph", expr, rec=8, models=True, setup=order_of(len(edges)), **kw2)
            if any(p.kind != "return" for p in ps):
                raise Refused(next(p for p in ps if p.kind != "return"))
            for p in ps:
                got = seq(p.frozen)
                why = og_differs(got[0], set(a["nodes"]) | set(full.values()), edges, ports(a["ins"], b["ins"]), outs, wm, wc)
                m = dict(Br.items(x) for x in seq(got[1]))
                if why is None and m != full:
                    why = f"the mapping is {m} instead of {full}"
                for i, x in ((2, a), (3, b)):
                    if why is None:
                        w = fold(rep, "graphix.opengraph", f"{OGV}({og_source(x)})", rec=8, models=True, **kw2)
                        if norm(w) != norm(got[i]):
                            why = f"the {'first' if i == 2 else 'second'} open graph is changed"
                rep.expect(why is None, "open graphs", key, og_at.loc(), why)

    kw2 = dict(kw)
    r = random.Random(23)
    for k in range(200 if thorough else 80):
        a, b = og_shape(r, range(8)), og_shape(r, r.choice((range(8), range(6, 12))))
        mp = {}
        for v in b["nodes"]:
            x = r.random()
            left = [w for w in a["nodes"] if w not in mp.values()]
            if x < 0.5 and left:
                # nodes that may be merged, most of the time
                good = [w for w in left if not (v in b["meas"] and w in a["meas"])]
                w = r.choice(good or left)
                mp[v] = w
                if v in b["meas"] and w in a["meas"] and r.random() < 0.7:
                    b["meas"][v] = a["meas"][w]
            elif x < 0.65:
                mp[v] = r.choice([w for w in range(20) if w not in mp.values() and w not in a["nodes"]])
        if k % 12 == 11:
            if r.random() < 0.5:
                mp[30] = 31
            elif len(b["nodes"]) > 1:
                mp[b["nodes"][0]] = mp[b["nodes"][1]] = 25
        jobs.append((og, (a, b, mp)))
    e = {"nodes": [], "edges": [], "ins": [], "outs": [], "meas": {}, "cl": {}}
    jobs.append((og, (e, e, {})))
    rep.share(jobs, lambda j: j[0](j[1]))
    for rule, n in (("reindex", 30), ("mapping", 20), ("compose", 70), ("open graphs", 50), ("refused", 10)):
        rep.floor(rule, n)


OGV = "(lambda o: (sorted(o.graph.nodes), [tuple(e) for e in o.graph.edges], list(o.input_nodes), list(o.output_nodes), [(k, o.measurements[k]) for k in sorted(o.measurements)], [(k, o.output_cliffords[k]) for k in sorted(o.output_cliffords)]))"


def order_of(k):
    """Sets are to be gone through in ascending order, or the opposite one."""
    def setup(ai):
        ai.reverse_sets = bool(k % 2)

    return setup


def par(m):
    return f"({m})"


def og_shape(r, pool):
    nodes = r.sample(list(pool), r.randint(1, 4))
    outs = r.sample(nodes, r.randint(0, len(nodes)))
    ins = r.sample(nodes, r.randint(0, min(2, len(nodes))))
    edges = [(x, y) for i, x in enumerate(nodes) for y in nodes[i + 1:] if r.random() < 0.5]
    meas = {v: r.choice(("Measurement.XY(0.25)", "Measurement.XZ(0.375)", "Measurement.X", "-Measurement.Y", "Measurement.Z")) for v in nodes if v not in outs}
    cl = {v: r.choice(("Clifford.H", "Clifford.S", "Clifford(17)", "Clifford(9)")) for v in outs if r.random() < 0.5}
    return {"nodes": nodes, "edges": edges, "ins": ins, "outs": outs, "meas": meas, "cl": cl}


def og_source(o):
    m, c = (", ".join(f"{k}: {v}" for k, v in o[x].items()) for x in ("meas", "cl"))
    return f"OpenGraph((lambda g: (g.add_nodes_from({o['nodes']}), g.add_edges_from({o['edges']}), g)[2])(nx.Graph()), {o['ins']}, {o['outs']}, {{{m}}}, {{{c}}})"


def og_differs(got, nodes, edges, ins, outs, meas, cliff):
    n, e, i, o, m, c = seq(got)
    if set(Br.items(n)) != nodes:
        return f"the nodes are {Br.items(n)} instead of {sorted(nodes)}"
    ge = {frozenset(x) for x in map(tuple, map(Br.items, seq(e)))}
    if ge != edges:
        return f"the edges are {sorted(map(sorted, ge))} instead of {sorted(map(sorted, edges))}"
    if list(Br.items(i)) != ins:
        return f"the inputs are {Br.items(i)} instead of {ins}"
    if list(Br.items(o)) != outs:
        return f"the outputs are {Br.items(o)} instead of {outs}"
    for what, x, w in (("measurements", m, meas), ("Clifford gates", c, cliff)):
        g = {seq(y)[0]: norm(seq(y)[1]) for y in seq(x)}
        if g != w:
            return f"the {what} are {brief_map(g)} instead of {brief_map(w)}"
    return None


def brief_map(d):
    return "{" + ", ".join(f"{k}: {show(v)[:60]}" for k, v in sorted(d.items())) + "}"


def norm(t):
    return show(t)


def brief(sh):
    return f"inputs {sh[0]}, {', '.join(map(render, sh[1]))}, outputs {sh[2]}"
