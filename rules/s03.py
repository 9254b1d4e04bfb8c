"""S03: the dense states hold what they were given, refuse what does not fit, and never index outside their array."""

from fractions import Fraction
from itertools import permutations, product

from sa import dense as D
from sa.h import *
from sa.values import IMAG, DictV, pmul, psqrt

TECHNIQUE = "static analysis: abstract interpretation of the constructors and of every operation, compiled kernels included, over exhaustive tables of sizes, capacities and qubit indices; accesses outside an array inside compiled code are reported as such"
RULE = (
    "The constructors of Statevector and DensityMatrix are interpreted for every combination of the size of the data, of nqubit and of max_qubits in a range that contains every case: they must either refuse with a ValueError or hold exactly the data, with nqubit and max_qubits as asked and an array of 2**max_qubits elements. "
    "Every operation is interpreted with every qubit index around the valid range: an index out of range must raise before a compiled kernel touches the array. The kets of to_dict and to_prob_dict must be those of the encoding asked for."
)
ASSUMPTIONS = ("exact arithmetic: rounding is not modelled", "numpy has its documented semantics (model in sa/arrays.py); numba does not check bounds", "sizes up to 9 elements, up to three qubits for the operations")
SV, DM = "graphix.sim.statevec", "graphix.sim.density_matrix"
H = psqrt(Fraction(1, 2))
STATES = {"ZERO": (1, 0), "ONE": (0, 1), "PLUS": (H, H), "MINUS": (H, pmul(H, -1)), "PLUS_I": (H, pmul(IMAG, H)), "MINUS_I": (H, pmul(pmul(IMAG, H), -1))}


def items(v):
    if isinstance(v, Term) and v.op == "list":
        return [items(x) for x in v.args]
    if isinstance(v, tuple):
        return [items(x) for x in v]
    if isinstance(v, Term) and v.op in ("complex", "float") and len(v.args) == 1:
        return items(v.args[0])
    return v


def log2(k):
    return k.bit_length() - 1 if k > 0 and k & (k - 1) == 0 else None


def run(rep):
    thorough = rep.tier == "thorough"
    locs = {}

    def loc(cls, name):
        if (cls, name) not in locs:
            m = method(rep, cls, name)
            rep.analysed(m)
            locs[cls, name] = m.loc()
        return locs[cls, name]

    def calls(mod, expr, **args):
        return outcomes(rep, mod, expr, rec=8, models=True, arrays=True, **args)

    def built(job):
        """(rule, location, expression, arguments, expected (psi, nqubit, max) or None when it must be refused)."""
        rule, at, expr, args, want = job
        with rep.guard(rule, expr):
            ps = calls(SV, f"(lambda s: (s.psi.tolist(), s.nqubit, s.max_qubits, len(s._psi) if hasattr(s, '_psi') else 2**s.max_qubits))({expr.split("  #")[0]})", **args)
            if any(p.guards for p in ps):
                raise AnalysisError(f"undecided guard {show(ps[0].guards[0][0])[:80]}")
            bad = []
            for p in ps:
                if p.kind == "raise":
                    if want is not None:
                        bad.append(f"raises {p.value[0]}: {show(p.value[1])[:80]}")
                    elif p.value[0] != "ValueError":
                        bad.append(f"raises {p.value[0]} instead of ValueError")
                    continue
                psi, n, cap, size = items(p.frozen)
                if want is None:
                    bad.append(f"gives {n} qubits with the amplitudes {show(psi)[:60]} where it should be refused")
                elif (n, cap) != want[1:]:
                    bad.append(f"holds {n} qubits of at most {cap} instead of {want[1]} of at most {want[2]}")
                elif not D.same(psi, want[0]):
                    bad.append(f"holds the amplitudes {show(psi)[:80]} instead of {show(want[0])[:80]}")
                elif size != 2**cap:
                    bad.append(f"has an array of {size} elements for {cap} qubits")
            rep.expect(bool(ps) and not bad, rule, expr, at, "; ".join(bad[:2]))

    def matrix(job):
        rule, at, expr, args, want = job
        with rep.guard(rule, expr):
            ps = calls(DM, f"(lambda s: (s.rho.tolist(), s.nqubit, s.rho.dtype == np.complex128))({expr.split("  #")[0]})", **args)
            bad, fine = [], 0
            for p in ps:
                psd = [v for a, v in p.guards if "eigvals" in show(a)]
                if len(psd) != len(p.guards):
                    raise AnalysisError(f"undecided guard {show(p.guards[0][0])[:80]}")
                if p.kind == "raise":
                    if want is not None and not psd:
                        bad.append(f"raises {p.value[0]}: {show(p.value[1])[:80]}")
                    elif p.value[0] != "ValueError":
                        bad.append(f"raises {p.value[0]} instead of ValueError")
                    continue
                fine += 1
                rho, n, cplx = items(p.frozen)
                if want is None:
                    bad.append(f"gives {n} qubits with the matrix {show(rho)[:60]} where it should be refused")
                elif n != want[1] or not D.same(rho, want[0]):
                    bad.append(f"holds {n} qubits and {show(rho)[:80]} instead of {want[1]} and {show(want[0])[:80]}")
                elif cplx is not True:
                    bad.append("does not hold complex numbers, so that operations on it fail")
            if want is not None and not fine and not bad:
                raise AnalysisError("no outcome")
            rep.expect(bool(ps) and not bad, rule, expr, at, "; ".join(bad[:2]))

    def outside(job):
        at, mod, make, expr, args, key = job
        with rep.guard("out of range", key):
            ps = calls(mod, f"(lambda s: ({expr}, s.nqubit)[1])({make})", **args)
            bad = []
            for p in ps:
                if p.kind != "raise":
                    bad.append("is not refused")
                elif p.value[0] == "OutOfBounds":
                    bad.append("reaches the compiled kernel, which indexes outside the array")
            rep.expect(bool(ps) and not bad, "out of range", key, at, "; ".join(sorted(set(bad))))

    def ket(job):
        n, psi, enc, what = job
        name = "to_dict" if what == "amplitude" else "to_prob_dict"
        key = f"{name} of {show(psi)[:80]} {enc or 'by default'}"
        with rep.guard("kets", key):
            ps = calls(SV, f"Statevector(psi, max_qubits={n + 1}).{name}({enc!r})" if enc else f"Statevector(psi, max_qubits={n + 1}).{name}()", psi=psi)
            if len(ps) != 1 or ps[0].guards or ps[0].kind != "return" or not isinstance(ps[0].value, DictV):
                raise AnalysisError(f"outcome {[(p.kind, show(p.value)[:80]) for p in ps][:2]}")
            got = {k: v for k, v in ps[0].value.items.values()}
            want = {}
            for i, a in enumerate(psi):
                if a != 0:
                    b = "".join(map(str, D.bits(i, n)))
                    want[b[::-1] if enc == "LSB" else b] = a if what == "amplitude" else D.product_of(a, D.conj(a))
            ok = list(got) == list(want) and all(D.same(got[k], want[k]) for k in want)
            rep.expect(ok, "kets", key, loc(f"{SV}.Statevector", name), f"is {show(ps[0].value)[:100]} instead of {show(want)[:100]}")

    init, dinit = loc(f"{SV}.Statevector", "__init__"), loc(f"{DM}.DensityMatrix", "__init__")
    jobs = []
    opts = (None, -1, 0, 1, 2, 3, 4)
    for k in range(10):
        # the last element, so that a truncation is seen
        data = tuple(1 if i == k - 1 else 0 for i in range(k))
        true = 0 if k == 0 else log2(k)
        for n, cap in product(opts[:6], opts):
            ok = true is not None and n in (None, true) and (cap is None or cap >= true)
            want = (data or (1,), true, true if cap is None else cap) if ok else None
            jobs.append((built, ("amplitudes", init, f"Statevector({list(data)}, nqubit={n}, max_qubits={cap})", {}, want)))
    for k in (2, 4):
        for data in ((1,) * k, (Fraction(1, 2),) * (k - 1) + (0,), (0,) * k, (2,) + (0,) * (k - 1)):
            if sum(x * x for x in data) != 1:
                jobs.append((built, ("normalization", init, "Statevector(data)" + f"  # {show(data)}", {"data": data}, None)))
    jobs.append((built, ("normalization", init, "Statevector(data)  # halves", {"data": (Fraction(1, 2),) * 4}, ((Fraction(1, 2),) * 4, 2, 2))))
    jobs.append((built, ("normalization", init, "Statevector(data)  # imaginary", {"data": (H, pmul(IMAG, H))}, ((H, pmul(IMAG, H)), 1, 1))))
    for names in ((), ("ONE",), ("MINUS_I",), ("PLUS", "ONE"), ("ONE", "PLUS"), ("ZERO", "PLUS_I", "ONE"), ("MINUS", "ZERO", "PLUS")):
        psi = (1,)
        for s in names:
            psi = tuple(D.tensor(psi, STATES[s]))
        for n, cap in product(opts[:6], opts):
            ok = n in (None, len(names)) and (cap is None or cap >= len(names))
            expr = f"Statevector([{', '.join('BasicStates.' + s for s in names)}], nqubit={n}, max_qubits={cap})"
            jobs.append((built, ("states", init, expr, {}, (psi, len(names), len(names) if cap is None else cap) if ok else None)))
    for s in STATES:
        for n, cap in product(opts[:5], opts[:6] if s == "ONE" else (None, 3)):
            m = 1 if n is None else n
            ok = m >= 0 and (cap is None or cap >= m)
            psi = (1,)
            for _ in range(max(m, 0)):
                psi = tuple(D.tensor(psi, STATES[s]))
            jobs.append((built, ("states", init, f"Statevector(BasicStates.{s}, nqubit={n}, max_qubits={cap})", {}, (psi, m, m if cap is None else cap) if ok else None)))
    for k, c in ((0, 0), (0, 2), (1, 1), (1, 3), (2, 2), (2, 3)):
        psi = tuple(1 if i == 2**k - 1 else 0 for i in range(2**k))
        for n, cap in product(opts[:5], opts):
            ok = n in (None, k) and (cap is None or cap >= k)
            jobs.append((built, ("copies", init, f"Statevector(Statevector({list(psi)}, max_qubits={c}), nqubit={n}, max_qubits={cap})", {}, (psi, k, c if cap is None else cap) if ok else None)))
    for c, r in product((0, 1, 2, 3), (0, 1, 2, 3, 4)):
        if c >= 1:
            jobs.append((built, ("capacity", loc(f"{SV}.Statevector", "ensure_capacity"), f"(lambda s: (s.ensure_capacity({r}), s)[1])(Statevector([0, 1], max_qubits={c}))", {}, ((0, 1), 1, max(c, r)))))
    # density matrices
    E = ((1, 0), (0, 0))
    for k in range(1, 6):
        rho = tuple(tuple(1 if i == j == k - 1 else 0 for j in range(k)) for i in range(k))
        for n in opts[:5]:
            ok = log2(k) is not None and n in (None, log2(k))
            jobs.append((matrix, ("matrices", dinit, f"DensityMatrix({[list(r) for r in rho]}, nqubit={n})", {}, (rho, log2(k)) if ok else None)))
    for what, rho in (("two rows of three", ((1, 0, 0), (0, 0, 0))), ("trace two", ((1, 0), (0, 1))), ("trace zero", ((0, 0), (0, 0))), ("a row", ((1, 0),))):
        jobs.append((matrix, ("matrices", dinit, f"DensityMatrix(rho)  # {what}", {"rho": rho}, None)))
    mixed = ((Fraction(1, 3), Fraction(1, 4)), (Fraction(1, 4), Fraction(2, 3)))
    jobs.append((matrix, ("matrices", dinit, "DensityMatrix(rho)  # mixed", {"rho": mixed}, (mixed, 1))))
    jobs.append((matrix, ("matrices", dinit, "DensityMatrix(DensityMatrix(rho))", {"rho": mixed}, (mixed, 1))))
    jobs.append((matrix, ("matrices", dinit, "DensityMatrix(DensityMatrix(rho), nqubit=1)", {"rho": mixed}, (mixed, 1))))
    jobs.append((matrix, ("matrices", dinit, "DensityMatrix(DensityMatrix(rho), nqubit=2)", {"rho": mixed}, None)))
    for names in ((), ("ONE",), ("MINUS_I",), ("ONE", "PLUS")):
        psi = (1,)
        for s in names:
            psi = tuple(D.tensor(psi, STATES[s]))
        rho = [[D.product_of(x, D.conj(y)) for y in psi] for x in psi]
        for n in opts[:5]:
            for src in (f"[{', '.join('BasicStates.' + s for s in names)}]", f"Statevector([{', '.join('BasicStates.' + s for s in names)}], max_qubits=3)"):
                jobs.append((matrix, ("matrices", dinit, f"DensityMatrix({src}, nqubit={n})", {}, (rho, len(names)) if n in (None, len(names)) else None)))
    # out of range
    op, op4 = D.matrix("m", 2), D.matrix("m", 4)
    for n in range(0, 4 if thorough else 3):
        for cls, mod, make in (("Statevector", SV, f"Statevector(nqubit={n}, max_qubits={n + 2})"), ("Statevector", SV, f"Statevector(nqubit={n})"), ("DensityMatrix", DM, f"DensityMatrix(nqubit={n})")):
            names = ["evolve_single", "expectation_single", "evolve"] + (["project_qubit", "expectation_value"] if cls == "Statevector" else ["remove_qubit", "ptrace"])
            arr = "np.array(op, dtype=np.complex128)"
            for name in names:
                for q in (*range(-n - 2, 0), n, n + 1):
                    arg = f"({q},)" if name in ("evolve", "expectation_value", "ptrace") else q
                    call = f"s.{name}({arg})" if name in ("ptrace", "remove_qubit") else f"s.{name}({arr}, {arg})"
                    if name == "ptrace":
                        call = f"s.ptrace([{q}])"
                    jobs.append((outside, (loc(f"{mod}.{cls}", name), mod, make, call, {} if name in ("ptrace", "remove_qubit") else {"op": op}, f"{make}.{name} on qubit {q}")))
            for name in ("entangle", "swap", "evolve"):
                for q, r in product((-n - 1, -1, 0, n - 1, n, n + 1), repeat=2):
                    if q == r or 0 <= q < n and 0 <= r < n:
                        continue
                    call = f"s.{name}(np.array(op, dtype=np.complex128), ({q}, {r}))" if name == "evolve" else f"s.{name}(({q}, {r}))"
                    jobs.append((outside, (loc(f"{mod}.{cls}", name), mod, make, call, {"op": op4} if name == "evolve" else {}, f"{make}.{name} on qubits {q} {r}")))
            wrong = [p for p in product(range(-1, n + 1), repeat=n) if sorted(p) != list(range(n))] + [tuple(range(n + 1)), tuple(range(n - 1))] * (n > 0)
            for p in wrong[:40]:
                jobs.append((outside, (loc(f"{mod}.{cls}", "permute"), mod, make, f"s.permute({p})", {}, f"{make}.permute({p})")))
    # kets
    for psi in ((0, 1), (H, pmul(H, -1)), (0, 0, 1, 0), (0, Fraction(3, 5), Fraction(4, 5), 0), (Fraction(1, 2), 0, pmul(IMAG, Fraction(1, 2)), H), (0, 0, 0, Fraction(3, 5), 0, 0, pmul(IMAG, Fraction(4, 5)), 0), (0, H, 0, 0, pmul(H, -1), 0, 0, 0)):
        for enc, what in product((None, "MSB", "LSB"), ("amplitude", "probability")):
            jobs.append((ket, (log2(len(psi)), psi, enc, what)))
    def copied(job):
        mod, make, change, observed, source = job
        key = f"{make} of {source} then {change}"
        with rep.guard("independence", key):
            first, second = (calls(mod, f"(lambda a: (lambda b: ({c}, {observed}.tolist())[1])({make}))({source})", op=op) for c in (change, "0"))
            first, second = ([p for p in ps if p.kind != "raise"] for ps in (first, second))
            if len(first) < 1 or len(second) != 1:
                raise AnalysisError(f"{len(first)} and {len(second)} outcomes")
            rep.expect(all(D.same(items(x.frozen), items(second[0].frozen)) for x in first), "independence", key, init if mod == SV else dinit, f"the original is {show(first[0].value)[:100]} afterwards")

    arr = "np.array(op, dtype=np.complex128)"
    for n, extra in ((1, 0), (1, 2), (2, 0), (2, 1)):
        for source, observed in ((f"Statevector(nqubit={n}, max_qubits={n + extra})", "a.psi"), (f"np.array({[1] + [0] * (2**n - 1)}, dtype=np.complex128)", "a")):
            for opt in ("", f", max_qubits={n}", f", max_qubits={n + 3}", f", nqubit={n}"):
                for change in (f"b.evolve_single({arr}, 0)", "b.add_nodes(1, BasicStates.ZERO)", f"b.project_qubit({arr}, 0)", "b.permute(range(b.nqubit - 1, -1, -1))", *(["b.entangle((0, 1))", "b.swap((0, 1))"] if n > 1 else [])):
                    jobs.append((copied, (SV, f"Statevector(a{opt})", change, observed, source)))
    for source, observed in (("DensityMatrix(nqubit=1)", "a.rho"), ("Statevector(nqubit=1)", "a.psi"), ("np.array([[1, 0], [0, 0]], dtype=np.complex128)", "a")):
        for change in (f"b.evolve_single({arr}, 0)", f"(b.evolve_single({arr}, 0), b.normalize())", "b.normalize()", "b.add_nodes(1, BasicStates.ZERO)", "setattr(b, 'rho', b.rho * 2)", "b.rho.__setitem__((0, 0), 5)"):
            jobs.append((copied, (DM, "DensityMatrix(a)", change, observed, source)))
    rep.share(jobs, lambda j: j[0](j[1]))
    rep.floor("amplitudes", 300)
    rep.floor("out of range", 250)
    rep.floor_total(900)
