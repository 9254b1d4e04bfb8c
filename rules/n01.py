"""N01: the noise models place exactly the noise they are configured with."""

from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation, one trace per command kind, on symbolic configurations and commands"
RULE = (
    "Each noise model is run abstractly with symbolic probabilities on a symbolic command of every kind: the resulting sequence must be the command itself once, with the noise of the matching "
    "parameter on its nodes after it (before it for measurements), conditioned on its domain for corrections. Input noise, result confusion, composition and transpilation are decided the same way."
)
ASSUMPTIONS = ("random generators draw uniformly in [0, 1)",)
PARAMS = ("prepare_error_prob", "x_error_prob", "z_error_prob", "entanglement_error_prob", "measure_channel_prob", "measure_error_prob")
MODELS = {
    "graphix.noise_models.depolarising.DepolarisingNoiseModel": ("DepolarisingNoise", "TwoQubitDepolarisingNoise"),
    "graphix.noise_models.amplitude_damping.AmplitudeDampingNoiseModel": ("AmplitudeDampingNoise", "TwoQubitAmplitudeDampingNoise"),
}
NM = "graphix.noise_models.noise_model"
ARGS = {p: var(p) for p in PARAMS}


def build(cls):
    return f"{cls.name}(" + ", ".join(f"{p}={p}" for p in PARAMS) + ")"


def run(rep):
    for qual, (one, two) in MODELS.items():
        model(rep, rep.prog.cls(qual), one, two)
    noiseless(rep)
    compose(rep)
    rep.floor_total(38)


def noise(t):
    """(noise class, probability, nodes, domain) of an ApplyNoise command."""
    d = fields(t)
    if not t.args[0].endswith("ApplyNoise"):
        raise AnalysisError(f"not a noise command: {show(t)}")
    n = d["noise"]
    return n.args[0].rsplit(".", 1)[-1], fields(n)["prob"], d["nodes"], d["domain"]


def nodes_are(t, want):
    t = plain(t)
    if isinstance(t, Term) and t.op == "list" and not any(isinstance(x, Term) and x.op == "splat" for x in t.args):
        t = t.args
    return t == want


def model(rep, cls, one, two):
    cmd = var("cmd")
    node, nodes, dom = attr(cmd, "node"), attr(cmd, "nodes"), attr(cmd, "domain")
    # kind -> (position of the noise, noise class, parameter, nodes, domain)
    want = {
        "N": ("after", one, "prepare_error_prob", (node,), None),
        "E": ("after", two, "entanglement_error_prob", nodes, None),
        "M": ("before", one, "measure_channel_prob", (node,), None),
        "X": ("after", one, "x_error_prob", (node,), dom),
        "Z": ("after", one, "z_error_prob", (node,), dom),
        "C": None, "T": None, "ApplyNoise": None,
    }
    f = method(rep, cls.qual, "command")
    rep.analysed(f)
    with rep.guard("command", cls.name):
        ai = B.AI(rep.prog)
        kinds = {}
        for p in ai.explore(lam(rep, cls.module.name, f"{build(cls)}.command(cmd)", *ARGS, "cmd"), {**ARGS, "cmd": cmd}):
            for k in kinds_of(rep, p.guards, cmd):
                kinds.setdefault(k, []).append(p)
        for k, w in want.items():
            key = f"{cls.name} {k}"
            with rep.guard("command", key):
                if k not in kinds:
                    raise AnalysisError(f"no trace for the commands of kind {k}")
                for p in kinds[k]:
                    if p.kind != "return":
                        rep.bad("command", key, f.loc(), f"commands of kind {k} raise {p.value}")
                        continue
                    items = seq(p.frozen)
                    if w is None:
                        rep.expect(items == [cmd], "command", key, f.loc(), f"gives {show(p.frozen)[:300]} instead of the command alone")
                        continue
                    pos, ncls, par, nds, domain = w
                    ok = len(items) == 2 and items[0 if pos == "after" else 1] == cmd
                    if ok:
                        c, pr, nn, dd = noise(items[1 if pos == "after" else 0])
                        ok = c == ncls and pr == var(par) and nodes_are(nn, nds) and dd == domain
                    rep.expect(ok, "command", key, f.loc(), f"gives {show(p.frozen)[:300]} instead of {ncls}({par}) {pos} the command, on its nodes" + (" and with its domain" if domain is not None else ""))
    f = method(rep, cls.qual, "input_nodes")
    with rep.guard("input noise", cls.name):
        rep.analysed(f)
        t = fold(rep, cls.module.name, f"{build(cls)}.input_nodes(ns)", **ARGS, ns=var("ns"))
        s = comp_single(t)
        ok = s is not None and plain(s[0]) == var("ns") and not s[2]
        if ok:
            c, pr, nn, dd = noise(s[3])
            ok = c == one and pr == var("prepare_error_prob") and nodes_are(nn, (s[1],)) and dd is None
        rep.expect(tri(ok, t), "input noise", cls.name, f.loc(), f"gives {show(t)[:300]} instead of the preparation noise on every input node")
    f = method(rep, cls.qual, "confuse_result")
    rep.analysed(f)
    for r in (0, 1):
        with rep.guard("confusion", f"{cls.name} {r}"):
            ai = B.AI(rep.prog, opaque=lambda g: g.name == "ensure_rng")
            ps = ai.explore(lam(rep, cls.module.name, f"{build(cls)}.confuse_result(cmd, {r}, rng)", *ARGS, "cmd", "rng"), {**ARGS, "cmd": cmd, "rng": var("rng")})
            for p in ps:
                draw = [flip(g, v) for g, v in p.guards]
                draw = [d for d in draw if d is not None]
                if p.kind != "return" or len(draw) != 1:
                    raise AnalysisError(f"a trace is not guarded by one comparison of a uniform draw with the probability: {show_guards(p.guards)[:200]}")
                rep.expect(p.frozen == (1 - r if draw[0] else r), "confusion", f"{cls.name} {r}", f.loc(), f"outcome {r} becomes {show(p.frozen)} when the draw is {'below' if draw[0] else 'at or above'} the probability")


def kinds_of(rep, guards, cmd):
    """Kinds of commands a trace is about."""
    enum = rep.prog.cls("graphix.command.CommandKind")
    left = {n for n in enum.enum_members()}
    for g, v in guards:
        if isinstance(g, Term) and g.op == "class" and g.args[0] == cmd:
            left &= {v}
        elif isinstance(g, Term) and g.op == "eq" and attr(cmd, "kind") in g.args:
            o = next(a for a in g.args if a != attr(cmd, "kind"))
            if isinstance(o, EnumVal):
                left = left & {o.name} if v else left - {o.name}
    return left


def flip(g, v):
    """Whether a guard says that a uniform draw is below the error probability."""
    while isinstance(g, Term) and g.op == "not":
        g, v = g.args[0], not v
    if not (isinstance(g, Term) and g.op == "lt0"):
        return None
    from sa.values import to_poly

    d = to_poly(g.args[0])
    prob = ((var("measure_error_prob"), 1),)
    u = [m for m in d if len(m) == 1 and m[0][1] == 1 and called(m[0][0])[0] in ("uniform", "random")]
    if set(d) != {prob, *u} or len(u) != 1 or d[prob] != -d[u[0]]:
        return None
    if d[prob] < 0:  # draw - prob < 0
        return v
    return not v  # prob < draw: differs from the above on an event of probability 0


def noiseless(rep):
    cls = rep.prog.cls(NM + ".NoiselessNoiseModel")
    for expr, want in (("command(x)", Term("list", var("x"))), ("input_nodes(x)", Term("list")), ("confuse_result(x, r)", var("r")), ("transpile(x)", None)):
        with rep.guard("noiseless", expr):
            t = fold(rep, NM, f"NoiselessNoiseModel().{expr}", x=var("x"), r=var("r"))
            ok = plain(t) == var("x") if want is None else t == want
            rep.expect(ok, "noiseless", expr, method(rep, cls.qual, expr.split("(")[0]).loc(), f"gives {show(t)[:200]}")


def compose(rep):
    """Composition, with component models that answer two commands each."""
    leaf = rep.prog.cls(NM + ".NoiselessNoiseModel")
    comp = rep.prog.cls(NM + ".ComposeNoiseModel")
    x, rng = var("x"), var("rng")
    bad = []

    def tag(name):
        def hook(interp, b, node):
            if freeze(b.get("rng")) != rng:
                bad.append(name)
            s = freeze(b["self"])
            if name == "confuse_result":
                return Term("flip", s, freeze(b["cmd"]), freeze(b["result"]))
            a = freeze(b["cmd" if name == "command" else "nodes"])
            return interp.mklist([Term(name, s, a, 1), Term(name, s, a, 2)])
        return hook

    m = [Term("var", f"m{i}", typ=("exact", leaf)) for i in range(3)]
    kw = {"m0": m[0], "m1": m[1], "m2": m[2], "x": x, "r": var("r"), "rng": rng}

    def out(expr):
        ai = B.AI(rep.prog)
        for n in ("command", "input_nodes", "confuse_result"):
            ai.hooks[f"{leaf.qual}.{n}"] = tag(n)
        ps = ai.explore(lam(rep, NM, expr, *kw), kw)
        vals = {p.frozen for p in ps if p.kind == "return"}
        if len(vals) != 1 or any(p.kind != "return" for p in ps):
            raise AnalysisError(f"{expr} has {len(ps)} outcomes")
        return next(iter(vals))

    def through(models, cmds):
        for k in models:
            cmds = [Term("command", k, c, i) for c in cmds for i in (1, 2)]
        return cmds

    for n in range(4):
        ms = "[" + ", ".join(f"m{i}" for i in range(n)) + "]"
        for name, expr, want in (
            ("command", f"ComposeNoiseModel({ms}).command(x, rng)", through(m[:n], [x])),
            ("input_nodes", f"ComposeNoiseModel({ms}).input_nodes(x, rng)", [Term("input_nodes", k, x, i) for k in m[:n] for i in (1, 2)]),
        ):
            with rep.guard("composition", f"{name} of {n}"):
                bad.clear()
                got = seq(out(expr))
                rep.expect(got == want and not bad, "composition", f"{name} of {n}", method(rep, comp.qual, name).loc(),
                           "does not pass the generator to the components" if bad else f"gives {show(tuple(got))[:300]}, not the components applied in order")
        with rep.guard("composition", f"confuse_result of {n}"):
            bad.clear()
            ms_ = out(f"ComposeNoiseModel({ms}).confuse_result(x, r, rng)")
            w = var("r")
            for k in m[:n]:
                w = Term("flip", k, x, w)
            rep.expect(ms_ == w and not bad, "composition", f"confuse_result of {n}", method(rep, comp.qual, "confuse_result").loc(),
                       "does not pass the generator to the components" if bad else f"gives {show(ms_)[:300]}")
    with rep.guard("transpilation", "sequence"):
        bad.clear()
        got = seq(out("m0.transpile([x, r], rng)"))
        rep.expect(got == through(m[:1], [x, var("r")]) and not bad, "transpilation", "sequence", method(rep, NM + ".NoiseModel", "transpile").loc(), f"gives {show(tuple(got))[:300]}")
