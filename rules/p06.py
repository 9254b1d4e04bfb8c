"""P06: shifting signals moves outcomes, not the state."""

from itertools import product as cartesian

from rules.g01 import ALPHA
from sa import branch as Br
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of signal shifting on known command lists with symbolic angles; exact branch semantics with relabelled outcomes"
RULE = (
    "Signal shifting (both methods) is interpreted abstractly on patterns of known shape whose nodes (but the first) are inputs in arbitrary states: all planes, Pauli axes, s and t domains over earlier nodes, chains of dependent measurements, corrections in between. "
    "With the outcomes relabelled by the signals it returns, the exact linear map and the probability of each branch must be those of the original pattern; the domains it promises to empty must be empty, and shift_outcomes must make that relabelling."
)
ASSUMPTIONS = ("patterns of at most five measured nodes",)
P = "graphix.pattern"
BETA = Term("var", "beta", typ=("prim", "float"))
GAMMA = Term("var", "gamma", typ=("prim", "float"))
DOMS = ("set()", "{0}", "{1}", "{0, 1}")
PLANES = ("XY", "XZ", "YZ")


def cases(thorough):
    tail = "X(3, {2}), Z(3, {1, 2}), X(3, {0, 2})"
    for p1, p2 in cartesian(PLANES, repeat=2):
        for (s1, t1), s2, t2 in [((a, b), c, d) for a, b in cartesian(("set()", "{0}"), repeat=2) for c, d in cartesian(DOMS, repeat=2)]:
            if thorough or (s1, t1) == ("{0}", "{0}") and (s2, t2) != ("set()", "set()") or (s2, t2) == ("{1}", "{0, 1}"):
                yield "planes", f"M(0, Measurement.XY(alpha)), M(1, Measurement.{p1}(beta), {s1}, {t1}), M(2, Measurement.{p2}(gamma), {s2}, {t2}), {tail}"
    for m in ("Measurement.X", "Measurement.Y", "Measurement.Z", "-Measurement.X", "-Measurement.Y", "-Measurement.Z"):
        for s, t in cartesian(DOMS, repeat=2):
            yield "Pauli measurements", f"M(0, Measurement.XY(alpha)), M(1, {m}, {{0}}, {{0}}), M(2, {m}, {s}, {t}), {tail}"
    for p in cartesian(PLANES, repeat=4) if thorough else [x for x in cartesian(PLANES, repeat=4) if x[0] == "XY" and x[3] != "XZ" or len(set(x)) == 1]:
        a, b, c, d = p
        yield "chains", f"M(0, Measurement.{a}(alpha)), M(1, Measurement.{b}(beta), {{0}}, {{0}}), M(2, Measurement.{c}(gamma), {{0, 1}}, {{1}}), M(4, Measurement.{d}(alpha), {{2}}, {{1, 2}}), X(3, {{4}}), Z(3, {{0, 4}})"
    for x in (
        "M(0, Measurement.XY(alpha)), X(1, {0}), M(1, Measurement.XZ(beta), set(), {0}), Z(3, {1}), E((2, 3)), M(2, Measurement.XY(gamma), {1}, {0, 1}), X(3, {2}), C(3, Clifford.H), Z(3, {2, 1})",
        "N(5), E((0, 5)), M(0, Measurement.XY(alpha)), E((5, 1)), M(5, Measurement.XY(beta), {0}), M(1, Measurement.YZ(gamma), {5}, {0}), Z(2, {5}), X(2, {1}), M(2, Measurement.XZ(alpha), {1}, {0, 5}), X(3, {2, 0}), Z(3, {5})",
        "M(0, Measurement.XY(alpha)), M(1, Measurement.XY(beta), set(), {0}), M(2, Measurement.XY(gamma), set(), {1}), Z(3, {2}), X(3, {0, 1, 2})",
        "M(0, Measurement.YZ(alpha)), M(1, Measurement.YZ(beta), {0}), M(2, Measurement.XZ(gamma), {1}, {1}), M(4, Measurement.XY(alpha), {2}, {2, 0}), Z(3, {4, 2}), X(3, {0, 1, 4})",
        "M(2, Measurement.XY(gamma)), M(1, Measurement.XY(beta), set(), {2}), M(0, Measurement.XY(alpha), {1}, {1, 2}), Z(3, {0}), X(3, {2, 1})",
        "X(3, set()), Z(3, set())",
        "M(0, Measurement.XY(alpha)), X(3, {0}), M(1, Measurement.XY(beta))",
    ):
        yield "sequences", x


def run(rep):
    cl = clifford_of(rep)
    kw = {"alpha": ALPHA, "beta": BETA, "gamma": GAMMA, **scope(rep)}
    f = method(rep, P + ".Pattern", "shift_signals")
    rep.analysed(f)
    for n in ("shift_signals_direct", "signals", "_commute_ms", "_commute_ss", "_commute_xs", "_commute_zs"):
        m = rep.prog.cls(P + ".Pattern").find_method(n)
        if m is not None:
            rep.analysed(m)

    def one(job):
        rule, body = job
        ins = [n for n in range(5) if n and f"({n}, " in body]
        make = f"Pattern(input_nodes={ins}, cmds=[N(0), {body}])"
        for how in ("direct", "mc"):
            key = f"{how}: {body}"
            with rep.guard(rule, key):
                ps = outcomes(rep, P, f"(lambda p: (list(p), p.input_nodes, p.output_nodes, p.shift_signals(method='{how}'), list(p), p.input_nodes, p.output_nodes))({make})", rec=8, models=True, **kw)
                for p in ps:
                    if p.kind != "return":
                        raise Refused(p)
                    a, ai, ao, sig, b, bi, bo = seq(p.frozen)
                    old = (seq(a), Br.items(ai), Br.items(ao))
                    new = (seq(b), Br.items(bi), Br.items(bo))
                    sig = {k: Br.items(v) for k, v in dict_items(sig).items()}
                    why = left(new[0])
                    if why is None and (old[2] != new[2] or [Br.flds(c)["node"] for c in old[0] if Br.kind(c) == "M"] != [Br.flds(c)["node"] for c in new[0] if Br.kind(c) == "M"]):
                        why = "the outputs or the order of the measurements change"
                    if why is None:
                        if how == "direct":  # signals over the outcomes of the shifted pattern
                            why = same_branches(new, old, cl, out=lambda x: shift(x, sig))
                        else:  # signals over the outcomes of the original pattern
                            why = same_branches(old, new, cl, out=lambda x: shift(x, sig))
                    rep.expect(why is None, rule, key, f.loc(), f"{brief_cmds(old[0])} becomes {brief_cmds(new[0])} with signals {sig}: {why}")

    rep.share(cases(rep.tier == "thorough"), one)
    relabel(rep)
    for bad in ("'other'", "''"):
        with rep.guard("methods", bad):
            ps = outcomes(rep, P, f"Pattern(input_nodes=[0]).shift_signals(method={bad})", rec=8, models=True)
            rep.expect(all(p.kind == "raise" for p in ps), "methods", bad, f.loc(), "an unknown method is accepted")
    rep.floor("planes", 150)
    rep.floor("Pauli measurements", 60)
    rep.floor("chains", 20)
    rep.floor_total(250)


def shift(x, sig):
    return {n: (b + sum(x[i] for i in sig.get(n, ()))) % 2 for n, b in x.items()}


def left(cmds):
    """Domains which shifting promises to empty."""
    for c in cmds:
        if Br.kind(c) == "S":
            return "a signal command is left"
        if Br.kind(c) == "M":
            d = Br.flds(c)
            m = Br.flds(d["measurement"])
            plane = m["plane"].name if "plane" in m else {"X": "XY", "Y": "XY", "Z": "XZ"}.get(m["axis"].name)
            if "plane" in m and Br.items(d["t_domain" if plane == "XY" else "s_domain"]):
                return f"the signal of node {show(d['node'])} is not shifted"
    return None


def relabel(rep):
    f = rep.prog.func(P + ".shift_outcomes")
    rep.analysed(f)
    sigs = ({}, {1: (0,)}, {1: (0,), 2: (0, 1)}, {2: (0, 1), 0: ()}, {0: (1, 2), 1: (2,)})
    for bits in cartesian((0, 1), repeat=3):
        for s in sigs:
            key = f"{bits} {s}"
            with rep.guard("shift_outcomes", key):
                lit = "{" + ", ".join(f"{k}: {{{', '.join(map(str, v))}}}" if v else f"{k}: set()" for k, v in s.items()) + "}"
                out = dict_items(fold(rep, P, f"shift_outcomes({dict(enumerate(bits))}, {lit})"))
                want = shift(dict(enumerate(bits)), s)
                rep.expect(out == want, "shift_outcomes", key, f.loc(), f"gives {out} instead of {want}")
