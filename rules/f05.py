"""F05: Pauli flows are reconstructed from corrections exactly when there is one."""

from random import Random

from sa import flows as F
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the reconstruction, GF(2) solver included, on corrections over labelled open graphs; the answer is compared with an enumeration of all correction sets by the definition of Pauli flow"
RULE = (
    "XZCorrections.to_pauliflow is interpreted on corrections that come from Pauli flows (any correction set that fits, any layering) and on corrections next to them. When for every measured node some set satisfies propositions P1 to P9 and has these X and Z corrections in the future, a flow is due: it must satisfy the definition with the layers of the corrections and give the same corrections back. "
    "Otherwise FlowError is due."
)
ASSUMPTIONS = ("open graphs of at most five nodes", "numpy and networkx have their documented semantics (models in sa/)")
P = "graphix.flow.core"


def text(d):
    return "{" + ", ".join(f"{k}: {{{', '.join(map(str, sorted(v)))}}}" for k, v in d.items() if v) + "}"


def corrections(og, cf, la):
    x, z = {}, {}
    for v, fut in F.futures(og, la):
        if v in cf:
            x[v], z[v] = set(cf[v]) & fut, og.odd(cf[v]) & fut
    return x, z


def solvable(og, x, z, la):
    """The nodes with no correction set that fits."""
    sets = list(F.subsets(set(og.nodes) - set(og.ins)))
    out = []
    for v, fut in F.futures(og, la):
        if not any(c & fut == x.get(v, set()) and og.odd(c) & fut == z.get(v, set()) and not F.broken("pauli", og, v, c, fut) for c in sets):
            out.append(v)
    return out


def layered(la):
    return "[" + ", ".join("{" + ", ".join(map(str, sorted(x))) + "}" for x in la) + "]"


def run(rep):
    thorough = rep.tier == "thorough"
    at = method(rep, P + ".XZCorrections", "to_pauliflow")
    rep.analysed(at)
    for n in ("_reconstruct_pauli_correction_function", "_solve_pauli_correction_set"):
        if f"{P}.{n}" in rep.prog.funcs:
            rep.analysed(rep.prog.funcs[f"{P}.{n}"])
    names = scope(rep)

    def one(job):
        og, x, z, la, why_, seed = job
        r = Random(seed)
        src = og.source({n: r.choice(F.MEAS[l]) for n, l in og.labels.items()}) if why_ != "labels" else og.source()
        missing = solvable(og, x, z, la)
        rule = "no Pauli flow" if missing else "Pauli flow"
        key = f"{seed}: {og} X {text(x)} Z {text(z)} layers {layered(la)}"
        with rep.guard(rule, key):
            expr = f"(lambda f: ([(k, list(s)) for k, s in f.correction_function.items()], [list(s) for s in f.partial_order_layers], type(f).__name__, (lambda c: ([(k, list(s)) for k, s in c.x_corrections.items()], [(k, list(s)) for k, s in c.z_corrections.items()]))(f.to_xzcorrections())))(XZCorrections({src}, {text(x)}, {text(z)}, {layered(la)}).to_pauliflow())"
            ps = outcomes(rep, P, expr, rec=12, models=True, arrays=True, **names)
            if len(ps) != 1 or ps[0].guards:
                raise AnalysisError(f"{len(ps)} outcomes")
            p = ps[0]
            if p.kind == "raise":
                ok = missing and p.value[0] in ("FlowError", "FlowGenericError")
                rep.expect(ok, rule, key, at.loc(), f"raises {p.value[0]}" + ("" if missing else " although correction sets fit"))
                return
            a, b, c, d = seq(p.frozen)
            pairs = lambda t: {k: set(seq(s)) for k, s in map(seq, seq(t))}
            got, la2 = pairs(a), [set(seq(s)) for s in seq(b)]
            if missing:
                rep.bad(rule, key, at.loc(), f"gives {got} although no correction set of {missing} fits")
                return
            bad = F.faults("pauli", og, got, la2)
            gx, gz = ({k: v for k, v in pairs(t).items() if v} for t in seq(d))
            why = None
            if c != "PauliFlow":
                why = f"is a {c}"
            elif la2 != [set(s) for s in la]:
                why = f"the layers become {la2}"
            elif bad:
                why = f"{got} breaks {sorted(map(str, bad))}"
            elif gx != {k: v for k, v in x.items() if v} or gz != {k: v for k, v in z.items() if v}:
                why = f"{got} has the corrections X {gx} Z {gz}"
            rep.expect(why is None, rule, key, at.loc(), why)

    jobs = []
    seen = {}
    r = Random(5)

    def add(og, x, z, la, kind, seed):
        shape = (len(og.labels), tuple(sorted(og.labels.values())), kind, bool(og.ins), bool(solvable(og, x, z, la)))
        seen[shape] = seen.get(shape, 0) + 1
        if seen[shape] <= (6 if thorough else 2) * (len(og.labels) > 2 or 1 + (kind != "same")):
            jobs.append((og, x, z, la, kind, seed))

    for i, (og, cf, la) in enumerate(F.candidates("pauli", "back", 9000 if thorough else 3000)):
        if not og.labels or F.layer_faults(og, la) or set(cf) != set(og.labels):
            continue
        x, z = corrections(og, cf, la)
        add(og, x, z, la, "same", f"c{i}")
        # another correction: some node of the future is corrected, or not any more
        opts = [(v, w) for v, fut in F.futures(og, la) for w in sorted(fut)]
        if opts and i % 2:
            v, w = r.choice(opts)
            t = r.random() < 0.5
            x2, z2 = {k: set(s) for k, s in x.items()}, {k: set(s) for k, s in z.items()}
            (x2 if t else z2)[v] ^= {w}
            add(og, x2, z2, la, "other", f"o{i}")
    for n, (kind, og, cf, la, seed) in enumerate(F.pairs("pauli", 3)):
        if F.layer_faults(og, la):
            continue
        if thorough or n % 4 == 0 or not F.faults(kind, og, cf, la) and n % 2 == 0:
            jobs.append((og, *corrections(og, cf, la), la, "pair", seed))
    rep.share(jobs, one)
    rep.floor("Pauli flow", 250)
    rep.floor("no Pauli flow", 100)
