"""S01: what the pattern simulator does for each command."""

from sa.h import *

TECHNIQUE = "abstract interpretation of the simulator (value numbering, traces partitioned by guards, generic loop iteration): effect of each command kind on the backend"
RULE = (
    "For every kind of command, on every path of the simulation loop: the operations reaching the backend, with their arguments as terms over the command, "
    "are exactly those the command denotes, conditional operations being guarded by the parity of the recorded outcomes over the command's own domain; "
    "the measured basis is the command's measurement under X (s-domain parity odd) and Z (t-domain parity odd); the outcome recorded is the one returned by the backend (confused by the noise model when there is one); "
    "the loop covers the whole command sequence, runs after the runnability check and ends with the output nodes handed to the backend."
)
ASSUMPTIONS = ("Python semantics of the constructs the interpreter models", "numpy/backends' numerical primitives are not analysed here")

OPAQUE = ("Backend", "NoiseModel", "Pattern", "MeasureMethod", "PrepareMethod")
PAULI = {"I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}
EFFECTS = {
    "N": ("prepare",), "E": ("entangle_nodes",), "M": ("measure",), "C": ("apply_clifford",), "T": (),
    "X": ("correct_byproduct",), "Z": ("correct_byproduct",), "ApplyNoise": ("apply_noise",),
}
ACTIONS = {"prepare", "entangle_nodes", "measure", "apply_clifford", "correct_byproduct", "apply_noise", "add_nodes", "apply_single"}


def field_of(rep, pred):
    """Names of the simulator fields whose initial value satisfies a predicate on every path."""
    ps = explore(rep, "graphix.simulator.PatternSimulator.__init__", opaque=lambda g: g.name == "_initialize_backend")
    names = None
    for p in ps:
        if p.kind != "return":
            continue
        here = {k[1] for k, v in p.final_attrs.items() if pred(v)}
        names = here if names is None else names & here
    return names or set()


def term_attrs(t):
    return {x.args[1] for x in subterms(t) if isinstance(x, Term) and x.op == "attr" and x.args[0] == var("self")}


def run(rep):
    run_loop(rep)
    describe(rep)
    domain_parity(rep)
    measure(rep)
    backend_effects(rep)
    rep.floor_total(45)


def run_loop(rep):
    f = rep.prog.func("graphix.simulator.PatternSimulator.run")
    ps = explore(rep, f, opaque=lambda g: in_classes(g, OPAQUE))
    pat_fields = field_of(rep, lambda v: v == var("pattern"))
    kinds = {m for m in rep.prog.cls("graphix.command.CommandKind").enum_members()}
    seen = {}
    for p in ps:
        evs = list(p.flat())
        per = {}
        for sub_kind, guards, events, loop_it in iterations(p):
            d = gdict(guards)
            k = [(a.args[0], v) for a, v in guards if a.op == "class" and v in kinds and v is not False]
            if not k:
                continue
            cmd, kind = k[-1]
            per.setdefault(kind, []).append((cmd, guards, events, sub_kind))
        for kind, insts in per.items():
            for cmd, guards, events, sub_kind in insts:
                acts = [e for e in events if e.kind in ("call", "mcall") and short(e) in ACTIONS]
                verdict, msg = effect(kind, cmd, guards, acts, sub_kind, p)
                cur = seen.get(kind)
                if cur is None or (cur[0] is True and verdict is not True):
                    seen[kind] = (verdict, msg)
        if p.kind == "return":
            order(rep, f, p, evs, pat_fields)
    for kind in [*EFFECTS, "S"]:
        v, msg = seen.get(kind, (None, "no path of the loop handles this kind"))
        rep.expect(v, "command effect", f"{f.qual} kind {kind}", f.loc(), f"{kind}: {msg}")
    pre_ok = [p for p in ps if p.kind == "raise" and p.value[0] == "ValueError" and not any(short(e) == "add_nodes" for e, _, _ in p.flat(("call", "mcall")))]
    ret = [p for p in ps if p.kind == "return"]
    for p in ret:
        g = gdict(p.guards)
        if any(a.op == "isinst" and v is True for a, v in p.guards):
            continue
        none_in = [v for a, v in p.guards if a.op == "isnone" and a.args[0] == var("input_state")]
        nq = [(a, v) for a, v in p.guards if a.op == "eq" and v is True and any((is_named_attr(x, "nqubit") or called(x)[0] == "nqubit") for x in subterms(a))]
        if none_in:
            want = 0 if none_in[0] is False else None
            ok = None
            if nq:
                a = nq[0][0]
                has0 = 0 in a.args
                ok = has0 if want == 0 else (not has0 and any(isinstance(x, Term) and x.op == "len" for x in subterms(a)))
            else:
                ok = False
            rep.expect(ok, "initial qubits", f"{f.qual} input {'given' if want == 0 else 'None'}", f.loc(),
                       "the simulation starts although the backend does not hold exactly the expected qubits (none when an input state is given, the input nodes otherwise)")


def iterations(p):
    """Every abstract loop iteration of a path: (outcome, guards, events, iterable)."""
    def rec(events, guards):
        for e in events:
            if e.kind == "loop":
                here = tuple(guards[: e.nguards]) if e.nguards is not None else tuple(guards)
                for s in e.subs:
                    flat = []
                    def fl(evs):
                        for x in evs:
                            if x.kind == "loop":
                                for s2 in x.subs:
                                    fl(s2.events)
                            else:
                                flat.append(x)
                    fl(s.events)
                    yield s.kind, here + tuple(s.guards), flat, e.ctx
                    yield from rec(s.events, here + tuple(s.guards))
    yield from rec(p.events, p.guards)
    if p.kind == "raise":
        yield "raise", p.guards, [e for e, _, _ in p.flat() if False], None


def cond_true(guards, cmd, exact_domain=True):
    """Whether the guards say that the condition on the domain of the command holds: True, False, or None when absent."""
    for a, v in guards:
        for x in subterms(a):
            if called(x)[0] == "check_domain":
                if attr(cmd, "domain") not in subterms(x):
                    return "other", v
                if a.op == "truthy":
                    return "own", v
                if a.op == "eq" and (False in a.args or 0 in a.args):
                    return "own", not v
                return "own", v if a.op != "not" else not v
    return None, None


def effect(kind, cmd, guards, acts, sub_kind, p):
    names = [short(e) for e in acts]
    if kind == "S":
        if acts:
            return False, f"a signal command reaches the backend through {names}"
        return True, ""
    if kind in ("X", "Z", "ApplyNoise"):
        which, val = cond_true(guards, cmd)
        dom = attr(cmd, "domain")
        none_dom = [v for a, v in guards if a.op == "isnone" and a.args[0] == dom]
        if kind == "ApplyNoise" and none_dom and none_dom[-1] is True:
            want = True
        elif which is None:
            if acts and kind != "ApplyNoise":
                return False, "the correction is applied without testing the outcomes of its domain"
            if acts:
                return False, "conditional noise is applied without testing the outcomes of its domain"
            return False, "the command is dropped without testing the outcomes of its domain"
        elif which == "other":
            return False, "the condition tested is not the parity over the domain of the command"
        else:
            want = val
        if want and names != list(EFFECTS[kind]):
            return False, f"with an odd domain parity the operations are {names}, not {list(EFFECTS[kind])}"
        if not want and names:
            return False, f"with an even domain parity the operations are {names}, not none"
        if not want:
            return True, ""
    elif names != list(EFFECTS[kind]):
        return False, f"the operations are {names}, not {list(EFFECTS[kind])}"
    for e in acts:
        vals = [v for k, v in e.args.items() if k not in ("self", "obj", "rng", "stacklevel")]
        n = short(e)
        if n in ("prepare", "measure"):
            if cmd not in vals:
                return False, f"{n} is not given the command itself"
            if n == "measure":
                nm = arg(e, "noise_model", 2, None)
                isn = [v for a, v in p.guards if a.op == "isnone" and isinstance(a.args[0], Term) and a.args[0].op == "attr" and a.args[0].args[1] == "noise_model"]
                if nm is None and not (isn and isn[0] is True):
                    return False, "the noise model is not handed to the measurement"
        elif n == "entangle_nodes":
            if vals != [attr(cmd, "nodes")] and not (len(vals) == 1 and endpoints(vals[0], cmd)):
                return False, f"entangles {vals}, not the two nodes of the command"
        elif n == "apply_clifford":
            if arg(e, "node", 0) != attr(cmd, "node") or arg(e, "clifford", 1) != attr(cmd, "clifford"):
                return False, f"applies {show(arg(e, 'clifford', 1))} to {show(arg(e, 'node', 0))}"
        elif cmd not in vals:
            return False, f"{n} is given {vals}, not the command"
    return True, ""


def endpoints(v, cmd):
    n = attr(cmd, "nodes")
    if isinstance(v, Term) and v.op == "list" and len(v.args) == 2:
        return {x for x in v.args} == {Term("getitem", n, 0), Term("getitem", n, 1)}
    return False


def order(rep, f, p, evs, pat_fields):
    names = []
    for i, e in enumerate(p.events):
        if e.kind == "loop":
            acts = [x for x, _, _ in _sub(e) if short(x) in ACTIONS]
            if acts:
                names.append(("loop", e, i))
        elif e.kind in ("call", "mcall") and short(e) in ("check_runnability", "finalize", "transpile", "input_nodes", "add_nodes"):
            names.append((short(e), e, i))
    loops = [e for n, e, _ in names if n == "loop"]
    tags = [n for n, _, _ in names]
    c = f"{f.qual} [{'noise' if _noise(p) else 'no noise'}{', input' if 'add_nodes' in tags else ''}]"
    if not loops:
        rep.und("whole sequence", c, "no loop over the commands recognised on this path")
        return
    rep.expect("check_runnability" in tags and tags.index("check_runnability") < tags.index("loop"), "runnability first", c, f.loc(),
               "commands are executed before the pattern is checked to be runnable")
    fin = [e for n, e, _ in names if n == "finalize"]
    ok = bool(fin) and tags[-1] == "finalize" and named(arg(fin[-1], "output_nodes", 0), "output_nodes")
    rep.expect(ok, "output order", c, f.loc(), "the backend is not given the output nodes of the pattern after the last command")
    its = [show(it) for e in loops for it, _ in e.ctx[:1]]
    text = " ".join(its)
    if _noise(p):
        ok = "transpile" in text
        rep.expect(ok, "whole sequence", c, f.loc(), f"the loop covers {its}, not the commands produced by the noise model")
        tr = [e for e, _, _ in p.flat(("call", "mcall")) if short(e) == "transpile"]
        rep.expect(bool(tr) and any(is_pattern(v, pat_fields) for v in tr[0].args.values()), "noise on the pattern", c, f.loc(),
                   "the noise model is not applied to the simulated pattern")
        inn = [e for e, _, _ in p.flat(("call", "mcall")) if short(e) == "input_nodes" and "noise" in show(receiver(e)) ]
        if "add_nodes" in tags:
            rep.expect(bool(inn), "input noise", c, f.loc(), "the noise on the input nodes is not simulated")
    else:
        ok = all(is_pattern(it, pat_fields) for e in loops for it, _ in e.ctx[:1])
        rep.expect(ok, "whole sequence", c, f.loc(), f"the loop covers {its}, not every command of the pattern")
    none_in = [v for a, v in p.guards if a.op == "isnone" and a.args[0] == var("input_state")]
    if none_in:
        add = [e for n, e, _ in names if n == "add_nodes"]
        if none_in[0] is False:
            ok = len(add) == 1 and named(arg(add[0], "nodes", 0), "input_nodes") and arg(add[0], "data", 1, None) == var("input_state")
            rep.expect(ok, "inputs prepared", c, f.loc(), "the input nodes are not prepared in the state given")
        else:
            rep.expect(not add, "inputs prepared", c, f.loc(), "input nodes are added although no input state is given")


def _noise(p):
    v = [v for a, v in p.guards if a.op == "isnone" and isinstance(a.args[0], Term) and a.args[0].op == "attr" and a.args[0].args[1] == "noise_model"]
    return bool(v) and v[0] is False


def _sub(e):
    from sa.interp import _flat_events
    for s in e.subs:
        yield from _flat_events(s.events, s.guards, (), ("call", "mcall"))


def is_pattern(t, fields):
    if not isinstance(t, Term):
        return False
    if t.op == "attr" and t.args[0] == var("self") and (t.args[1] in fields or t.args[1] == "pattern"):
        return True
    if t.op in ("lst", "iter") and t.args:
        return is_pattern(t.args[0], fields)
    if called(t)[0] in ("__iter__", "pattern"):
        return is_pattern(called(t)[1].get("self"), fields) or called(t)[0] == "pattern"
    return False


def pauli_chain(t, names):
    """(measurement, Pauli product) of nested applications of Pauli Cliffords to a measurement."""
    x = z = 0
    while called(t)[0] == "clifford":
        kw = called(t)[1]
        g = kw.get("clifford_gate")
        if g not in names:
            return None
        bx, bz = PAULI[names[g]]
        x, z, t = x ^ bx, z ^ bz, kw["self"]
    return t, (x, z)


def describe(rep):
    names = pauli_cliffords(rep)
    for f in concrete_methods(rep, "graphix.simulator.MeasureMethod", "describe_measurement"):
        with rep.guard("adaptive basis", f.qual):
            ps = explore(rep, f, opaque=lambda g: g.name == "clifford")
            m = var("cmd")
            for p in ps:
                if p.kind != "return":
                    continue
                bits, extra = {}, []
                for a, v in p.guards:
                    par = parity(a, v)
                    if par is None:
                        if a.op not in ("isinst", "class"):
                            extra.append((a, v))
                        continue
                    comp, odd = par
                    cs = comp_single(comp)
                    if cs is None:
                        extra.append((a, v))
                        continue
                    it, el, g, val = cs
                    dom = it.args[1] if isinstance(it, Term) and it.op == "attr" and it.args[0] == m else None
                    lookup = recorded(val, el)
                    if dom is None or lookup is None or g:
                        extra.append((a, v))
                        continue
                    bits[dom] = odd
                c = f"{f.qual} s={bits.get('s_domain')} t={bits.get('t_domain')}"
                ch = pauli_chain(p.frozen, names)
                if extra:
                    rep.expect(tri(False, *[a for a, _ in extra]), "adaptive basis", f"{c}: condition", f.loc(), f"the basis depends on {show_guards(extra)}, not on the parities over the s- and t-domains")
                    continue
                if ch is None or ch[0] != attr(m, "measurement"):
                    rep.expect(tri(False, p.frozen), "adaptive basis", c, f.loc(), f"measures {show(p.frozen)}")
                    continue
                want = {(int(s), int(t)) for s in ([bits["s_domain"]] if "s_domain" in bits else [0, 1]) for t in ([bits["t_domain"]] if "t_domain" in bits else [0, 1])}
                rep.expect(want == {ch[1]}, "adaptive basis", c, f.loc(),
                           f"the measurement is transformed by X^{ch[1][0]} Z^{ch[1][1]} although the parities over the s- and t-domains are {sorted(want)}")


def recorded(val, el):
    """Whether a term is the recorded outcome of a node."""
    if isinstance(val, Term) and val.op == "getitem" and val.args[1] == el:
        return val.args[0]
    if called(val)[0] == "measurement_outcome" and el in subterms(val):
        return val
    return None


def domain_parity(rep):
    for f in concrete_methods(rep, "graphix.simulator.MeasureMethod", "check_domain"):
        with rep.guard("domain parity", f.qual):
            ps = explore(rep, f, opaque=lambda g: g.name == "measurement_outcome")
            d = var(f.params[1].arg)
            for p in ps:
                if p.kind != "return":
                    continue
                v = p.frozen
                par = None
                if isinstance(v, Term):
                    par = parity(v, True) if v.op in ("not", "eq", "truthy") else ((is_bits_parity(v), True) if is_bits_parity(v) is not None else None)
                elif isinstance(v, bool):
                    hits = [(parity(a, b)) for a, b in p.guards if parity(a, b) is not None]
                    if len(hits) == 1 and len(p.guards) == 1:
                        par = (hits[0][0], hits[0][1] == v)
                if par is None:
                    rep.expect(tri(False, v, *[a for a, _ in p.guards]), "domain parity", f.qual, f.loc(), f"the condition is {show(v)} [{show_guards(p.guards)}], not the parity of the recorded outcomes over the domain")
                    continue
                comp, odd = par
                cs = comp_single(comp)
                ok = cs is not None and cs[0] == d and not cs[2] and recorded(cs[3], cs[1]) is not None
                rep.expect(tri(ok and odd is True, comp), "domain parity", f.qual, f.loc(),
                           "the condition is not that the parity of the recorded outcomes over the whole domain is odd")


def measure(rep):
    for f in concrete_methods(rep, "graphix.simulator.MeasureMethod", "measure"):
        ps = explore(rep, f, opaque=lambda g: in_classes(g, OPAQUE))
        cmd, be = var("cmd"), var("backend")
        for p in ps:
            if p.kind != "return":
                continue
            noisy = [v for a, v in p.guards if a.op == "isnone" and a.args[0] == var("noise_model")]
            c = f"{f.qual} {'with' if noisy and noisy[0] is False else 'without'} noise"
            ms = [e for e, _, _ in calls(p, "measure") if receiver(e) == be]
            st = [e for e, _, _ in calls(p, "store_measurement_outcome")]
            cf = [e for e, _, _ in calls(p, "confuse_result")]
            if len(ms) != 1 or len(st) != 1:
                rep.bad("outcome recorded", c, f.loc(), f"{len(ms)} measurements and {len(st)} recorded outcomes on one path")
                continue
            desc = arg(ms[0], "measurement", 1)
            okd = arg(ms[0], "node", 0) == attr(cmd, "node") and called(desc)[0] == "describe_measurement" and cmd in subterms(desc)
            rep.expect(okd, "outcome recorded", f"{c}: what is measured", f.loc(), f"measures {show(desc)} on {show(arg(ms[0], 'node', 0))}")
            rec = arg(st[0], "result", 1)
            okn = arg(st[0], "node", 0) == attr(cmd, "node")
            want_conf = bool(noisy) and noisy[0] is False
            is_conf = called(rec)[0] == "confuse_result"
            raw = called(rec)[1].get("result") if is_conf else rec
            base_ok = called(raw)[0] == "measure" and called(raw)[1].get("self", called(raw)[1].get("obj")) == be
            rep.expect(okn and base_ok and is_conf == want_conf and len(cf) == int(want_conf), "outcome recorded", c, f.loc(),
                       f"records {show(rec)} for {show(arg(st[0], 'node', 0))}")
    for f in concrete_methods(rep, "graphix.simulator.MeasureMethod", "store_measurement_outcome"):
        g = f.cls.find_method("measurement_outcome")
        for p in explore(rep, f):
            if p.kind != "return":
                continue
            sets = [e for e, _, _ in p.flat(("setitem",))]
            n, r = var(f.params[1].arg), var(f.params[2].arg)
            ok = len(sets) == 1 and n in sets[0].args.values() and r in sets[0].args.values()
            rep.expect(ok, "outcome recorded", f.qual, f.loc(), "the outcome given is not stored for the node given")
            if ok:
                tgt = receiver(sets[0])
                for q in explore(rep, g):
                    if q.kind == "return":
                        v = q.frozen
                        okr = isinstance(v, Term) and v.op == "getitem" and v.args[1] == var(g.params[1].arg) and (tgt is None or v.args[0] == tgt)
                        rep.expect(okr, "outcome recorded", g.qual, g.loc(), f"the outcome read back is {show(v)}")


def backend_effects(rep):
    """X, Z, Clifford and CZ reach the state of every backend as the operator they denote, on the nodes they name."""
    ops = {k: evalconst(rep, "graphix.ops", f"Ops.{k}") for k in ("X", "Z", "CZ")}
    base = rep.prog.cls("graphix.sim.base_backend.Backend")
    for f in concrete_methods(rep, "graphix.sim.base_backend.Backend", "correct_byproduct"):
        ps = explore(rep, f, opaque=lambda g: g.cls is not None and (in_classes(g, ("DenseState", "MBQCTensorNet", "NodeIndex"))))
        for k in ("X", "Z"):
            for p in ps:
                if p.kind != "return":
                    continue
                kc = p.cls_of(var("cmd")) or kind_guard(p, var("cmd"), k)
                if kc not in (k, None) or kc == "!":
                    continue
                evs = [e for e, _, _ in p.flat(("call", "mcall")) if short(e) in ("evolve_single", "evolve")]
                got = [v for e in evs for n, v in e.args.items() if n in ("op", "0", "arr")]
                locs = [v for e in evs for n, v in e.args.items() if n in ("qubit", "index", "qindex", "1", "0") and v not in got]
                ok = len(evs) == 1 and len(got) == 1 and freeze(got[0]) == freeze(ops[k]) and all(attr(var("cmd"), "node") in subterms(v) for v in locs)
                rep.expect(ok, "backend operator", f"{f.qual} {k}", f.loc(), f"{k} correction applies {[show(freeze(x))[:80] for x in got]}")
    for f in concrete_methods(rep, "graphix.sim.base_backend.Backend", "apply_clifford"):
        for p in explore(rep, f, opaque=lambda g: g.cls is not None and (in_classes(g, ("DenseState", "MBQCTensorNet", "NodeIndex", "Clifford")))):
            if p.kind != "return":
                continue
            evs = [e for e, _, _ in p.flat(("call", "mcall")) if short(e) in ("evolve_single", "evolve")]
            node, cl = var(f.params[1].arg), var(f.params[2].arg)
            txt = [show(v) for e in evs for v in e.args.values()]
            ok = len(evs) == 1 and any("matrix" in show(v) and cl in subterms(v) for v in evs[0].args.values()) and any(node in subterms(v) for v in evs[0].args.values())
            bad_conj = any("conj" in t for t in txt)
            rep.expect(ok and not bad_conj, "backend operator", f.qual, f.loc(), f"applies {txt}")
    for f in concrete_methods(rep, "graphix.sim.base_backend.Backend", "entangle_nodes"):
        for p in explore(rep, f, opaque=lambda g: g.cls is not None and (in_classes(g, ("DenseState", "NodeIndex")))):
            if p.kind != "return":
                continue
            edge = var(f.params[1].arg)
            evs = [e for e, _, _ in p.flat(("call", "mcall")) if short(e) == "entangle"]
            if f.cls.name == "TensorNetworkBackend":
                continue
            ok = len(evs) == 1 and {0, 1} <= {x.args[1] for x in subterms(tuple(evs[0].args.values())) if isinstance(x, Term) and x.op == "getitem" and x.args[0] == edge}
            rep.expect(ok, "backend operator", f.qual, f.loc(), "CZ is not applied to the two nodes of the edge")


def kind_guard(p, cmd, k):
    for a, v in p.guards:
        if a.op in ("isinst", "class") and a.args[0] == cmd:
            names = a.args[1] if a.op == "isinst" else {v}
            if len(names) == 1:
                n = next(iter(names))
                return n if v is not False else (k if n != k else "!")
        if a.op == "eq" and any(is_attr(x, cmd, "kind") for x in a.args):
            n = [x.name for x in a.args if isinstance(x, EnumVal)]
            if n:
                if v is True:
                    return n[0]
                return k if n[0] != k else "!"
    return None
