"""F01: the well-formedness checks of flows and XZ-corrections accept exactly what the definitions accept."""

from random import Random

from sa import flows as F
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the checks on labelled open graphs of known shape, against the definitions"
RULE = (
    "check_well_formed and is_well_formed of causal flows, gflows and Pauli flows, is_focused, and the construction, check and order tests of XZ-corrections are interpreted abstractly on a fixed family of small open graphs (all planes and axes; measurements given as labels, Bloch angles and Pauli measurements), with correction functions, corrections and layers that are correct or have any combination of faults. "
    "They must accept exactly what the written definitions accept; a refusal must name a proposition, node or layer which is really at fault."
)
ASSUMPTIONS = ("the model of networkx graphs in sa/models", "open graphs of at most five nodes")
P = "graphix.flow.core"
CLASSES = {"causal": "CausalFlow", "gflow": "GFlow", "pauli": "PauliFlow"}
FLOW_ERRORS = {"FlowError", "FlowPropositionError", "FlowPropositionOrderError", "FlowGenericError", "PartialOrderError", "PartialOrderLayerError"}
XZ_ERRORS = {"XZCorrectionsError", "XZCorrectionsOrderError", "XZCorrectionsGenericError", "PartialOrderError", "PartialOrderLayerError"}


def measured_as(r, kind, og):
    """Source text of each measurement: bare labels, or measurements with that label."""
    if r.random() < 0.5:
        return {}
    return {n: r.choice(F.MEAS[la][1:]) for n, la in og.labels.items()}


def fault(p):
    """(class, reason, node or index of the layer) of the error a path raises."""
    name, args = p.value
    args = seq(args) if not isinstance(args, EnumVal) else [args]
    reason = next((a.name for a in args if isinstance(a, EnumVal)), None)
    where = next((int(a) for a in args if isinstance(a, int) and not isinstance(a, bool)), None)
    return name, reason, where


def text(sets):
    return "{" + ", ".join(f"{k}: {lit(v)}" for k, v in sets.items()) + "}"


def lit(s):
    return "{" + ", ".join(map(str, sorted(s))) + "}" if s else "set()"


def layered(la, r):
    kind = r.choice(("list", "tuple", "frozen"))
    body = ", ".join(f"frozenset({sorted(x)})" if kind == "frozen" else lit(x) for x in la)
    return f"({body}{',' if la else ''})" if kind != "list" else f"[{body}]"


def run(rep):
    kw = scope(rep)
    thorough = rep.tier == "thorough"
    loc = {}
    for k, c in CLASSES.items():
        m = method(rep, f"{P}.{c}", "check_well_formed")
        rep.analysed(m)
        loc[k] = m.loc()
    for c, n in (("PauliFlow", "is_well_formed"), ("PauliFlow", "is_focused"), ("XZCorrections", "check_well_formed"), ("XZCorrections", "from_measured_nodes_mapping"), ("XZCorrections", "is_compatible"), ("XZCorrections", "generate_total_measurement_order"), ("XZCorrections", "to_pattern")):
        m = method(rep, f"{P}.{c}", n)
        rep.analysed(m)
        loc[n if c == "PauliFlow" else "xz." + n] = m.loc()

    def paths(expr):
        got = outcomes(rep, P, expr, models=True, rec=8, **kw)
        for p in got:
            if p.guards:
                raise AnalysisError(f"the result depends on {show_guards(p.guards)[:200]}")
        return got

    def value(expr):
        (p,) = paths(expr)
        if p.kind != "return":
            raise Refused(p)
        return p.frozen

    def why_not(expr, bad, errors):
        """Why the answer of a check does not fit the faults there are (None if it does)."""
        (p,) = paths(expr)
        if p.kind == "return":
            return None if not bad else f"accepted, but {sorted(map(str, bad))} hold"
        name, reason, where = fault(p)
        if not bad:
            return f"refused with {name} {reason} {where}, but nothing is wrong"
        if name not in errors:
            return f"refused with {name}, which the callers do not catch"
        ill = any(x in ("NthLayer", "FirstLayer", "IncorrectNodes", "Empty") for x, _ in bad)
        if not any(x == reason and (w == where or where is None) for x, w in bad) and not (ill and reason and reason[0] in "CGPXZ" and reason[1:].isdigit()):
            return f"refused with {name} {reason} {where}, but what is wrong is {sorted(map(str, bad))}"
        return None

    def flow(job):
        kind, og, cf, la, seed = job
        r = Random(seed)
        bad = F.faults(kind, og, cf, la)
        new = f"{CLASSES[kind]}({og.source(measured_as(r, kind, og))}, {text(cf)}, {layered(la, r)})"
        key = f"{kind} {seed}: {og} corrections {cf} layers {la}"
        with rep.guard(CLASSES[kind], key):
            why = why_not(new + ".check_well_formed()", bad, FLOW_ERRORS)
            rep.expect(why is None, CLASSES[kind], key, loc[kind], str(why))
        if seed.endswith(("0", "3", "7")):
            with rep.guard("is_well_formed", key):
                v = value(new + ".is_well_formed()")
                rep.expect(v is (not bad), "is_well_formed", key, loc["is_well_formed"], f"is {show(v)}, the faults are {sorted(map(str, bad))}")
        if not {x for x, _ in bad} & {"IncorrectCorrectionFunctionDomain"} and kind != "causal" and seed.endswith(("1", "4", "5", "8")):
            with rep.guard("is_focused", key):
                v = value(new + ".is_focused()")
                rep.expect(v is F.focused(og, cf), "is_focused", key, loc["is_focused"], f"is {show(v)}, should be {F.focused(og, cf)}")

    def pair(job):
        """What a correction set says of its node and of one other, in every combination."""
        kind, og, cf, la, seed = job
        r = Random(seed)
        bad = F.faults(kind, og, cf, la)
        new = f"{CLASSES[kind]}({og.source(measured_as(r, kind, og))}, {text(cf)}, {layered(la, r)})"
        key = f"{kind} {seed}: {og} corrections {cf} layers {la}"
        with rep.guard("pairs of nodes", key):
            why = why_not(new + ".check_well_formed()", bad, FLOW_ERRORS)
            if why is None and r.random() < 0.5:
                v = value(new + ".is_focused()")
                if v is not F.focused(og, cf):
                    why = f"is_focused is {show(v)}, should be {F.focused(og, cf)}"
            rep.expect(why is None, "pairs of nodes", key, loc[kind], str(why))

    def corrections(job):
        og, x, z, la, seed = job
        r = Random(seed)
        key = f"{seed}: {og} X {x} Z {z}"
        src = og.source(measured_as(r, "pauli", og))
        if la is None:
            with rep.guard("from mappings", key):
                bad = set()
                if not set(x) | set(z) <= set(og.labels):
                    bad.add(("IncorrectKeys", None))
                if not set().union(*x.values(), *z.values()) <= set(og.nodes):
                    bad.add(("IncorrectValues", None))
                depth = F.chain(og, x, z)
                if depth is None:
                    bad.add(("ClosedLoop", None))
                expr = f"XZCorrections.from_measured_nodes_mapping({src}, {text(x) if x or r.random() < 0.5 else None}, {text(z)})"
                why = why_not(expr, bad, XZ_ERRORS)
                if why is None and not bad:
                    got = [frozenset(seq(v)) for v in seq(value(f"[list(v) for v in {expr}.partial_order_layers]"))]
                    want = max(depth.values(), default=-1) + 1 + bool(og.outs)
                    f = F.correction_faults(og, x, z, got)
                    if f:
                        why = f"the layers are {got}: {sorted(map(str, f))}"
                    elif len(got) != want:
                        why = f"the layers are {got}, {want} are enough"
                rep.expect(why is None, "from mappings", key, loc["xz.from_measured_nodes_mapping"], str(why))
            return
        bad = F.correction_faults(og, x, z, la)
        new = f"XZCorrections({src}, {text(x)}, {text(z)}, {layered(la, r)})"
        with rep.guard("XZCorrections", key + f" layers {la}"):
            why = why_not(new + ".check_well_formed()", bad, XZ_ERRORS)
            rep.expect(why is None, "XZCorrections", key + f" layers {la}", loc["xz.check_well_formed"], str(why))
        if any(w for w, _ in bad if w not in ("X", "Z")):
            return
        order = [n for i, lay in enumerate(la) if i or not og.outs for n in sorted(lay, key=lambda n: r.random())][::-1]
        how = r.choice(("same", "same", "swap", "drop", "twice", "output", "shuffle"))
        if how == "swap" and len(order) > 1:
            i = r.randrange(len(order) - 1)
            order[i], order[i + 1] = order[i + 1], order[i]
        elif how == "drop" and order:
            order.pop(r.randrange(len(order)))
        elif how == "twice" and order:
            order.insert(r.randrange(len(order)), r.choice(order))
        elif how == "output" and og.outs:
            order.append(og.outs[0])
        elif how == "shuffle":
            r.shuffle(order)
        level = {n: i for i, lay in enumerate(la) for n in lay if i or not og.outs}
        fits = sorted(order) == sorted(og.labels) and all(level[a] >= level[b] for a, b in zip(order, order[1:], strict=False))
        with rep.guard("measurement order", key + f" layers {la} order {order}"):
            v = value(f"{new}.is_compatible({order})")
            rep.expect(v is fits, "measurement order", key + f" layers {la} order {order}", loc["xz.is_compatible"], f"is {show(v)}, should be {fits}")
        if seed.endswith(("2", "6")):
            with rep.guard("total order", key):
                v = seq(value(f"{new}.generate_total_measurement_order()"))
                ok = sorted(v) == sorted(og.labels) and all(level[a] >= level[b] for a, b in zip(v, v[1:], strict=False))
                rep.expect(ok, "total order", key, loc["xz.generate_total_measurement_order"], f"the layers are {la}, the order is {v}")
            full = og.source({n: F.MEAS[l][1] for n, l in og.labels.items()})
            if not bad:
                with rep.guard("order of a pattern", key):
                    ps = paths(f"XZCorrections({full}, {text(x)}, {text(z)}, {la}).to_pattern({order})")
                    ok = {p.kind for p in ps} == {"return" if fits else "raise"} and (fits or all(fault(p)[1] == "IncompatibleOrder" for p in ps))
                    rep.expect(ok, "order of a pattern", key + f" layers {la} order {order}", loc["xz.to_pattern"], f"{'refused' if fits else 'not refused as incompatible'}")

    def mapping(r, og, size):
        return {n: set(r.sample(og.nodes, r.randint(0, min(len(og.nodes), size)))) for n in og.labels if r.random() < 0.7}

    def xz_jobs():
        for seed, n, want in (("a", 3000, 4 if not thorough else 20),):
            r = Random("xz" + seed)
            count = {}
            for i in range(n if not thorough else 4 * n):
                og = F.random_graph(r, r.choice((1, 2, 3, 3, 4, 5)), F.PLANES + F.AXES)
                order = list(og.labels)
                r.shuffle(order)
                la, rest = ([set(og.outs)] if og.outs else []), order
                while rest:
                    k = r.randint(1, len(rest))
                    la, rest = [*la, set(rest[:k])], rest[k:]
                x, z = {}, {}
                for v, fut in F.futures(og, la):
                    for d in (x, z):
                        if fut and r.random() < 0.7:
                            d[v] = set(r.sample(sorted(fut), r.randint(0, len(fut))))
                full = r.random() < 0.4
                how = r.choice(("none", "none", "faults", "loop", "key", "value", "self"))
                if how == "faults" and not full:
                    og, _, la = F.perturb(r, "pauli", og, {}, la)
                elif how == "loop" and og.labels:
                    v = r.choice(sorted(og.labels))
                    r.choice((x, z)).setdefault(v, set()).add(r.choice(sorted(og.labels)))
                elif how == "key":
                    r.choice((x, z))[r.choice([*og.outs, 99])] = {r.choice(og.nodes)} if r.random() < 0.7 else set()
                elif how == "value" and full and og.labels:
                    r.choice((x, z)).setdefault(r.choice(sorted(og.labels)), set()).add(99)
                elif how == "self" and og.labels:
                    v = r.choice(sorted(og.labels))
                    r.choice((x, z)).setdefault(v, set()).add(v)
                if not full:
                    x = {k: {a for a in v if a in og.nodes} for k, v in x.items()}
                    z = {k: {a for a in v if a in og.nodes} for k, v in z.items()}
                key = (full, how, bool(og.outs), len(og.labels), frozenset(a for a, _ in F.correction_faults(og, x, z, la)))
                if not full:
                    key = key[0], key[2], key[4]
                count[key] = count.get(key, 0) + 1
                if count[key] <= (want if full else 3 * want if not key[2] else want // 2):
                    yield og, x, z, None if full else la, f"{seed}{i}"

    jobs = []
    for kind in CLASSES:
        for i, (og, cf, la) in enumerate(F.spread(kind, 1, 20000 if thorough else 5000, 60 if thorough else 14, 6 if thorough else 2)):
            jobs.append((flow, (kind, og, cf, la, f"{kind}{i}")))
    jobs += [(pair, j) for j in F.pairs("gflow", 1)] + [(pair, j) for j in F.pairs("pauli", 1)]
    jobs += [(corrections, j) for j in xz_jobs()]
    rep.share(jobs, lambda j: j[0](j[1]))

    # the errors describe themselves
    for cls, extra in (("FlowPropositionError", ", 1234, {2}"), ("FlowPropositionOrderError", ", 1234, {2}, {3, 4}"), ("FlowGenericError", ""), ("PartialOrderError", ""), ("PartialOrderLayerError", ", 1234, {2}"), ("XZCorrectionsOrderError", ", 1234, {2}, {3, 4}"), ("XZCorrectionsGenericError", "")):
        f = method(rep, f"graphix.flow.exceptions.{cls}", "__str__")
        rep.analysed(f)
        members = rep.prog.cls(f"graphix.flow.exceptions.{cls}Reason").enum_members()
        for name in members:
            with rep.guard("messages", f"{cls} {name}"):
                s = fold(rep, "graphix.flow.exceptions", f"str({cls}({cls}Reason.{name}{extra}))")
                s = s if isinstance(s, str) else show(s)
                ok = len(s) > 10 and "self." not in s and (not extra or "1234" in s or "{2}" in s)
                rep.expect(ok, "messages", f"{cls} {name}", f.loc(), f"is {show(s)[:200]}")
    rep.floor("CausalFlow", 200)
    rep.floor("GFlow", 200)
    rep.floor("PauliFlow", 300)
    rep.floor("is_well_formed", 200)
    rep.floor("is_focused", 150)
    rep.floor("pairs of nodes", 2000)
    rep.floor("XZCorrections", 60)
    rep.floor("from mappings", 60)
    rep.floor("measurement order", 25)
    rep.floor("messages", 20)
