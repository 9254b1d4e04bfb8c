"""P04: what a pattern says of itself agrees with its commands, through every sequence of operations."""

import random
from itertools import product

from sa import branch as Br
from sa.h import *

from rules.p02 import brief, nodes_of, order_of, render, shape, source, text

TECHNIQUE = "static analysis: abstract interpretation of the accessors, queries and operations of patterns on command sequences of every kind, against their definition on the sequence"
RULE = (
    "Patterns are built by the constructor, add, extend, replace and clear, changed by each operation of the class (in place and as copies), and observed after each step: commands, inputs, outputs, counts and nodes must be those of the command sequence, accessors must give copies, and operations that are not to change inputs or outputs must keep them and their order. "
    "Queries (is_standard, commands by kind, spaces, degrees, neighbours, equality) are compared with their definition, and must leave the pattern as it is; reorderings that are not permutations must be refused with PatternError."
)
ASSUMPTIONS = ("patterns of at most six nodes",)
P = "graphix.pattern"
VIEW = "(lambda q: ([q[i] for i in range(len(q))], list(q), q.input_nodes, q.output_nodes, q.n_node, sorted(q.nodes())))"
KEEP = (
    ("standardize", "q.standardize()"),
    ("shift_signals", "q.shift_signals()"),
    ("shift_signals", "q.shift_signals(method='mc')"),
    ("parallelize_pattern", "q.parallelize_pattern()"),
    ("minimize_space", "q.minimize_space()"),
    ("infer_pauli_measurements", "q.infer_pauli_measurements()"),
    ("blochify", "q.blochify()"),
    ("apply", "q.apply(lambda m: m)"),
    ("remove_local_clifford_commands", "q.remove_local_clifford_commands()"),
    ("perform_pauli_pushing", "q.perform_pauli_pushing()"),
    ("remove_pauli_measurements", "q.infer_pauli_measurements().remove_pauli_measurements()"),
)
COPIES = (
    ("copy", "q.copy()"),
    ("map", "q.map(lambda m: m)"),
    ("to_bloch", "q.to_bloch()"),
    ("infer_pauli_measurements", "q.infer_pauli_measurements(copy=True)"),
    ("blochify", "q.blochify(copy=True)"),
    ("reindex", "q.reindex(lambda v: v, copy=True)"),
    ("perform_pauli_pushing", "q.perform_pauli_pushing(copy=True)"),
    ("remove_local_clifford_commands", "q.remove_local_clifford_commands(copy=True)"),
    ("remove_pauli_measurements", "q.infer_pauli_measurements(copy=True).remove_pauli_measurements(copy=True)"),
)


def plain(r, n, pool):
    """A runnable shape of commands for which every operation is defined."""
    while True:
        ins, cmds, outs = shape(r, n, pool, kinds=False)
        cmds = [(*c[:3], c[3].replace("alpha", "0.375").replace("beta", "0.1875")) for c in cmds if c[0] != "T"]
        pairs = [frozenset(c[1]) for c in cmds if c[0] == "E"]
        # Clifford gates come after the entanglements of their node
        late = all(not (c[0] == "C" and d[0] == "E" and c[1][0] in d[1]) for i, c in enumerate(cmds) for d in cmds[i + 1:])
        if late and len(pairs) == len(set(pairs)):
            return ins, cmds, outs


def standard(kinds, strict):
    i = 0
    for group in ("N", "E", "M", *(("XZ", "C") if strict else ("XZC",))):
        while i < len(kinds) and kinds[i] in group:
            i += 1
    return i == len(kinds)


def run(rep):
    names = scope(rep)
    kw = {"alpha": Term("var", "alpha", typ=("prim", "float")), "beta": Term("var", "beta", typ=("prim", "float")), **names}
    thorough = rep.tier == "thorough"
    r = random.Random(41)
    at = {}

    def loc(m):
        if m not in at:
            at[m] = method(rep, P + ".Pattern", m)
            rep.analysed(at[m])
        return at[m].loc()

    def get(expr, order=0):
        ps = outcomes(rep, P, expr, rec=8, models=True, arrays="local_clifford" in expr, setup=order_of(order), **kw)
        if any(p.kind != "return" for p in ps):
            raise Refused(next(p for p in ps if p.kind != "return"))
        if len(ps) != 1:
            raise AnalysisError(f"{len(ps)} outcomes")
        return ps[0].frozen

    def refused(expr):
        ps = outcomes(rep, P, expr, rec=8, models=True, **kw)
        return all(p.kind == "raise" and p.value[0] == "PatternError" for p in ps)

    def commands(cmds):
        return [show(x) for x in seq(fold(rep, P, f"[{', '.join(map(render, cmds))}]", rec=8, models=True, **kw))]

    def view(t):
        """(commands, inputs, outputs) or the reason for which the view is not coherent."""
        byi, its, ins, outs, n, nodes = seq(t)
        c = [show(x) for x in seq(its)]
        if [show(x) for x in seq(byi)] != c:
            return "the commands by index are not those of the iteration"
        ins, outs = list(Br.items(ins)), list(Br.items(outs))
        prepared = [x for x in c if x.startswith("N(")]
        if n != len(ins) + len(prepared):
            return f"n_node is {show(n)} with {len(ins)} inputs and {len(prepared)} preparations"
        return c, ins, outs, list(Br.items(nodes))

    def alive(sh):
        ins, cmds, _ = sh
        out = list(ins)
        for k, vs, _, _ in cmds:
            if k == "N":
                out.append(vs[0])
            elif k == "M" and vs[0] in out:
                out.remove(vs[0])
        return out

    def state(v, want, outs=None):
        """Why the view differs from a pattern with the given inputs, commands and outputs."""
        if isinstance(v, str):
            return v
        ins, cmds, o = want
        c, i, got, nodes = v
        lead = next((x for x, y in enumerate(cmds) if y[0] != "N"), len(cmds))
        c = sorted(c[:lead]) + c[lead:]  # the order of the first preparations is immaterial
        due = commands(cmds)
        if c != sorted(due[:lead]) + due[lead:]:
            return f"the commands are {c} instead of {commands(cmds)}"
        if i != list(ins):
            return f"the inputs are {i} instead of {list(ins)}"
        if got != list(o):
            return f"the outputs are {got} instead of {list(o)}"
        if nodes != sorted(nodes_of((ins, [x for x in cmds if x[0] == "N"], o))):
            return f"the nodes are {nodes}"
        return None

    def build(job):
        what, expr, want, m = job
        with rep.guard("construction", what):
            why = state(view(get(f"{VIEW}({expr})")), want)
            rep.expect(why is None, "construction", what, loc(m), why)

    def accessor(job):
        sh, attr, change = job
        with rep.guard("copies", f"{attr} {change}: {brief(sh)}"):
            got = get(f"(lambda p: (p.{attr}.{change}, {VIEW}(p))[1])({source(sh)})")
            why = state(view(got), sh)
            rep.expect(why is None, "copies", f"{attr} {change}: {brief(sh)}", loc(attr), f"changing the list returned changes the pattern: {why}")

    def keep(job):
        sh, m, expr, copy = job
        key = f"{expr}: {brief(sh)}"
        with rep.guard("operation", key):
            if copy:
                got = seq(get(f"(lambda q: (lambda o: ({VIEW}(o), {VIEW}(q)))({expr}))({source(sh)})", len(sh[1])))
            else:
                got = seq(get(f"(lambda q: ({expr}, {VIEW}(q))[1:])({source(sh)})", len(sh[1])))
            v = view(got[0])
            if isinstance(v, str):
                rep.bad("operation", key, loc(m), v)
                return
            c, i, o, nodes = v
            why = None
            new = [x for x in o if x not in sh[2]]
            if m == "remove_local_clifford_commands" and not set(new) & nodes_of(sh):
                # outputs may be at the end of a new wire
                o = [y if x in new else x for x, y in zip(o, sh[2], strict=True)] if len(o) == len(sh[2]) else o
                nodes = nodes if set(new) <= set(nodes) and nodes_of(sh) <= set(nodes) else None
                nodes = nodes and sorted(nodes_of(sh))
            if i != list(sh[0]):
                why = f"the inputs become {i}"
            elif o != list(sh[2]):
                why = f"the outputs become {o}"
            elif m != "remove_pauli_measurements" and nodes != sorted(nodes_of(sh)):
                why = f"the nodes become {nodes}"
            elif copy and (w := state(view(got[1]), sh)):
                why = f"the original is changed: {w}"
            rep.expect(why is None, "operation", key, loc(m), why)

    def aliasing(job):
        """Changing a copy leaves the original alone, and conversely."""
        sh, m, expr, changes = job
        for change in changes:
            for one, other in (("o", "q"), ("q", "o")):
                key = f"{expr}, then {change} on the {'copy' if one == 'o' else 'original'}: {brief(sh)}"
                with rep.guard("aliasing", key):
                    got = seq(get(f"(lambda q: (lambda o: ({VIEW}({other}), (lambda p: {change})({one}), {VIEW}({other})))({expr}))({source(sh)})"))
                    rep.expect(show(got[0]) == show(got[2]), "aliasing", key, loc(m), "the other pattern is changed as well")

    def query(job):
        sh, m, expr, want, conv = job
        key = f"{expr}: {brief(sh)}"
        with rep.guard("query", key):
            got = seq(get(f"(lambda q: ({expr}, {VIEW}(q)))({source(sh)})", len(sh[1])))
            val = conv(got[0])
            why = None if val == want else f"is {val} instead of {want}"
            why = why or ((w := state(view(got[1]), sh)) and f"changes the pattern: {w}")
            rep.expect(not why, "query", key, loc(m), why)

    def reorder(job):
        sh, m, order = job
        want = sh[2] if m == "reorder_output_nodes" else sh[0]
        key = f"{m}({order}) of {want}"
        with rep.guard("reorder", key):
            if sorted(order) != sorted(want):
                rep.expect(refused(f"(lambda q: q.{m}({order}))({source(sh)})"), "reorder", key, loc(m), "a list that is not a permutation is accepted")
                return
            for arg_ in (f"{order}", f"iter({order})"):
                got = get(f"(lambda q: (q.{m}({arg_}), {VIEW}(q))[1])({source(sh)})")
                w = (sh[0], sh[1], order) if m == "reorder_output_nodes" else (order, sh[1], sh[2])
                why = state(view(got), w)
                rep.expect(why is None, "reorder", f"{key} as {arg_[:4]}", loc(m), why)

    def equal(job):
        a, b, same = job
        key = f"{brief(a)} and {brief(b)}"
        with rep.guard("equality", key):
            got = seq(get(f"(lambda a, b: (a == b, b == a, a != b, a == a.copy()))({source(a)}, {source(b)})"))
            rep.expect(list(got) == [same, same, not same, True], "equality", key, loc("__eq__"), f"==, ==, != and equality with a copy give {[show(x) for x in got]}")

    def is_std(job):
        kinds, strict = job
        cmds = {"N": "N(1)", "E": "E((0, 1))", "M": "M(0, Measurement.X)", "X": "X(1, {0})", "Z": "Z(1, {0})", "C": "C(1, Clifford.H)", "S": "S(1, {0})"}
        body = ", ".join(cmds[k] for k in kinds)
        want = standard(kinds, strict)
        with rep.guard("is_standard", f"{kinds} {strict}"):
            got = get(f"(lambda q: q.is_standard({'strict=True' if strict else ''}))(Pattern(input_nodes=[0], cmds=[{body}]))")
            rep.expect(got is want, "is_standard", f"{kinds or 'no command'}{' strictly' if strict else ''}", loc("is_standard"), f"is {show(got)}")

    jobs = []
    # construction
    for k in range(60 if thorough else 24):
        sh = shape(r, r.randint(1, 5), range(9))
        ins, cmds, outs = sh
        al = alive(sh)
        body = ", ".join(map(render, cmds))
        cut = r.randint(0, len(cmds))
        b1, b2 = ", ".join(map(render, cmds[:cut])), ", ".join(map(render, cmds[cut:]))
        adds = "".join(f"p.add({render(c)}), " for c in cmds)
        plan = (
            ("constructor", f"Pattern({ins}, [{body}])", (ins, cmds, al), "__init__"),
            ("constructor with outputs", f"Pattern(input_nodes={ins}, cmds=iter([{body}]), output_nodes={outs})", (ins, cmds, outs), "__init__"),
            ("add", f"(lambda p: ({adds}p,)[-1])(Pattern(input_nodes=iter({ins})))", (ins, cmds, al), "add"),
            ("extend", f"(lambda p: (p.extend([{b1}], ({b2}{',' if b2 else ''})), p)[-1])(Pattern(input_nodes={ins}))", (ins, cmds, al), "extend"),
            ("extend by commands", f"(lambda p: (p.extend({b1}{', ' if b1 else ''}iter([{b2}])), p)[-1])(Pattern(input_nodes={ins}))", (ins, cmds, al), "extend"),
            ("clear", f"(lambda p: (p.clear(), p)[-1])({source(sh)})", (ins, [], ins), "clear"),
            ("clear and extend", f"(lambda p: (p.clear(), p.extend([{body}]), p)[-1])({source(sh)})", (ins, cmds, al), "clear"),
            ("replace", f"(lambda p: (p.replace([{body}], {ins}), p)[-1])(Pattern(input_nodes=[50, 51], cmds=[N(52), M(51, Measurement.X)], output_nodes=[52, 50]))", (ins, cmds, al), "replace"),
            ("replace with the same inputs", f"(lambda p: (p.replace([{body}]), p)[-1])(Pattern(input_nodes={ins}, cmds=[N(52), N(53)]))", (ins, cmds, al), "replace"),
            ("remove_input_nodes", f"(lambda p: (p.remove_input_nodes(), p)[-1])({source(sh)})", ([], [("N", (v,), (), "") for v in ins] + cmds, outs), "remove_input_nodes"),
        )
        for what, expr, want, m in plan:
            jobs.append((build, (f"{what}: {brief(sh)}", expr, want, m)))
        for attr in ("input_nodes", "output_nodes"):
            jobs.append((accessor, (sh, attr, ("append(40)", "clear()", "reverse()")[k % 3])))
        for what, expr, m in (
            ("inputs given to the constructor", f"(lambda l: (lambda p: (l.append(70), p.extend([{body}]), p)[-1])(Pattern(input_nodes=l)))({ins})", "__init__"),
            ("commands given to the constructor", f"(lambda l: (lambda p: (l.append(N(70)), p)[-1])(Pattern({ins}, l)))([{body}])", "__init__"),
            ("outputs given to the constructor", f"(lambda l: (lambda p: (l.append(70), p)[-1])(Pattern({ins}, [{body}], l)))({al})", "__init__"),
            ("inputs given to replace", f"(lambda l: (lambda p: (p.replace([{body}], l), l.append(70), p)[-1])(Pattern()))({ins})", "replace"),
            ("commands given to replace", f"(lambda l: (lambda p: (p.replace(l), l.append(N(70)), p)[-1])(Pattern({ins})))([{body}])", "replace"),
            ("inputs given to reorder_input_nodes", f"(lambda l: (lambda p: (p.reorder_input_nodes(l), l.append(70), p)[-1])(Pattern({ins}, [{body}])))({ins})", "reorder_input_nodes"),
            ("outputs given to reorder_output_nodes", f"(lambda l: (lambda p: (p.reorder_output_nodes(l), l.append(70), p)[-1])(Pattern({ins}, [{body}])))({al})", "reorder_output_nodes"),
        ):
            jobs.append((build, (f"{what} and changed afterwards: {brief(sh)}", expr, (ins, cmds, al), m)))
        jobs.append((aliasing, (sh, "copy", "q.copy()", ("p.add(N(60))", "p.remove_input_nodes()", "p.clear()", f"p.reorder_output_nodes({outs[::-1]})", "p.reindex(lambda v: v + 1)"))))
    for sh in (([1, 2], [("N", (3,), (), ""), ("E", (1, 3), (), "")], [3, 1, 2]), ([1], [], [1]), ([], [("N", (0,), (), "")], [0]), ([], [], [])):
        for m in ("reorder_output_nodes", "reorder_input_nodes"):
            base = sh[2] if m == "reorder_output_nodes" else sh[0]
            for order in (base, base[::-1], base[1:] + base[:1], base[:-1], base + [7], base + base[:1], [*base[:-1], 7], base[:-1] + base[:1]):
                jobs.append((reorder, (sh, m, order)))
    # operations
    for k in range(24 if thorough else 8):
        sh = plain(r, r.randint(2, 5), range(9))
        for m, expr in KEEP:
            jobs.append((keep, (sh, m, expr, False)))
        for m, expr in COPIES:
            jobs.append((keep, (sh, m, expr, True)))
            if k < 3:
                jobs.append((aliasing, (sh, m, expr, ("p.add(N(60))", "p.reorder_output_nodes(p.output_nodes[::-1])", "p.blochify()"))))
    # queries
    whole = lambda t: show(t)
    for k in range(60 if thorough else 20):
        sh = plain(r, r.randint(1, 6), range(9))
        if k % 2:
            sh = (sh[0], [("N", c[1], (), "") if c[0] == "N" else c for c in sh[1]], sh[2])
        ins, cmds, outs = sh
        n = len(ins)
        spaces = []
        for c in cmds:
            if c[0] in "NM":
                n += 1 if c[0] == "N" else -1
                spaces.append(n)
        edges = [c[1] for c in cmds if c[0] == "E"]
        nodes = sorted(nodes_of(sh))
        deg = {v: sum(v in e for e in edges) for v in nodes}
        ms = {c[1][0]: show(fold(rep, P, render(c), rec=8, models=True, **kw)) for c in cmds if c[0] == "M"}
        cl = {c[1][0]: show(fold(rep, P, render(c)[:-1].split(", ", 1)[1], rec=8, models=True, **kw)) for c in cmds if c[0] == "C"}
        pairs = lambda t: {seq(x)[0]: show(seq(x)[1]) for x in seq(t)}
        jobs += [
            (query, (sh, "space_list", "q.space_list()", spaces, lambda t: list(Br.items(t)))),
            (query, (sh, "max_space", "q.max_space()", max([len(ins), *spaces]), lambda t: t)),
            (query, (sh, "measurement_commands", "[(k, v) for k, v in q.measurement_commands().items()]", ms, pairs)),
            (query, (sh, "clifford_commands", "[(k, v) for k, v in q.clifford_commands().items()]", cl, pairs)),
            *(() if any(c[0] == "N" and c[3] for c in cmds) else (
            (query, (sh, "isolated_nodes", "sorted(q.isolated_nodes())", [v for v in nodes if not deg[v]], lambda t: list(Br.items(t)))),
            (query, (sh, "max_degree", "q.max_degree()", max(deg.values(), default=0), lambda t: t)))),
            (query, (sh, "nodes", "sorted(q.nodes())", nodes, lambda t: list(Br.items(t)))),
            (query, (sh, "sort_measurement_commands", f"q.sort_measurement_commands({sorted(ms, reverse=True)})", [ms[v] for v in sorted(ms, reverse=True)], lambda t: [show(x) for x in seq(t)])),
        ]
        for v in nodes[:3]:
            near = [x if y == v else y for x, y in edges if v in (x, y)]
            for prepared in (None, set(near[:1]), set(near)):
                arg_ = "" if prepared is None else f", {text(prepared)}"
                jobs.append((query, (sh, "connected_nodes", f"sorted(q.connected_nodes({v}{arg_}))", sorted(x for x in near if x not in (prepared or ())), lambda t: list(Br.items(t)))))
    std = ([0, 1], [("N", (2,), (), ""), ("N", (3,), (), ""), ("E", (0, 2), (), ""), ("E", (1, 3), (), ""), ("E", (3, 0), (), ""), ("M", (0,), (set(), set()), "Measurement.XY(0.25)"), ("M", (1,), ({0}, set()), "Measurement.X"), ("X", (2,), ({0},), ""), ("Z", (3,), ({0, 1},), ""), ("C", (2,), (), ", Clifford.H"), ("Z", (2,), ({1},), "")], [3, 2])
    want = [show(fold(rep, P, render(c), rec=8, models=True, **kw)) for c in std[1] if c[0] in "XZ"]
    jobs.append((query, (std, "correction_commands", "q.correction_commands()", want, lambda t: [show(x) for x in seq(t)])))
    for v, near in ((0, [2, 3]), (3, [1, 0]), (2, [0])):
        jobs.append((query, (std, "connected_nodes", f"q.connected_nodes({v})", near, lambda t: list(Br.items(t)))))
    # equality
    variants = [std]
    for i in range(len(std[1])):
        variants.append((std[0], std[1][:i] + std[1][i + 1:], None))
    variants += [(std[0], std[1][:7] + [std[1][8], std[1][7]] + std[1][9:], std[2]), (std[0], std[1], std[2][::-1]), (std[0][::-1], std[1], std[2])]
    other = {"M": "Measurement.XY(0.5)", "C": ", Clifford.S", "N": ", BasicStates.ZERO"}
    for i, c in enumerate(std[1]):
        if c[0] in other:
            variants.append((std[0], [*std[1][:i], (*c[:3], other[c[0]]), *std[1][i + 1:]], std[2]))
        if c[2]:
            variants.append((std[0], [*std[1][:i], (c[0], c[1], (*c[2][:-1], c[2][-1] ^ {1}), c[3]), *std[1][i + 1:]], std[2]))
    for v in variants:
        v = (v[0], v[1], v[2] or alive(v))
        jobs.append((equal, (std, v, v[1] == std[1] and v[0] == std[0] and v[2] == std[2])))
    # standard form
    kinds = {""}
    for n in range(1, 5 if thorough else 4):
        kinds |= {"".join(x) for x in product("NEMXZCS", repeat=n)}
    kinds = sorted(kinds)
    kinds = [x for i, x in enumerate(kinds) if len(x) < 3 or i % (3 if thorough else 4) == 0]
    kinds += ["".join(x) for n in (3, 4) for x in product("XZC", repeat=n)] + ["NNEEMMXZXZCC", "NEMXCZ", "NEMCXZ", "NEMXZCX", "NEMZCM", "EMNXZC", "NEEMXZCE"]
    jobs += [(is_std, (k, s)) for k in kinds for s in (False, True)]
    rep.share(jobs, lambda j: j[0](j[1]))
    for rule, n in (("construction", 100), ("copies", 20), ("operation", 60), ("aliasing", 60), ("query", 100), ("reorder", 30), ("equality", 15), ("is_standard", 100)):
        rep.floor(rule, n)
