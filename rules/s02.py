"""S02: the operations of the dense simulators act on the amplitudes as the linear maps they are named after."""

from fractions import Fraction
from itertools import combinations, permutations

from sa import dense as D
from sa.arrays import real
from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the state classes, compiled kernels included, on symbolic amplitudes and symbolic operators; exact polynomial comparison with the definition"
RULE = (
    "Each operation of Statevector and DensityMatrix is interpreted, down to the loops of the compiled kernels, on states whose amplitudes are distinct symbols and with operators whose entries are distinct symbols, for every choice of qubits and for several capacities of the preallocated array (whose other elements are symbols of their own). "
    "The amplitudes left behind must be, as polynomials, those of the textbook map, the number of qubits must be the one of the result, and operations which only observe must leave the state as it was."
)
ASSUMPTIONS = ("exact arithmetic: rounding is not modelled", "numpy and numba have their documented semantics (model in sa/arrays.py); a parallel loop is taken here in its serial order (S04 decides that the order does not matter)", "at most four qubits (five with --thorough), three for density matrices")
SV, DM = "graphix.sim.statevec", "graphix.sim.density_matrix"


def plain(path):
    """Guards other than the validation of the (unknown) amplitudes when the state was built."""
    return [(a, v) for a, v in path.guards if not any(isinstance(t, Term) and t.op in ("call", "ext", "truthy") and "isclose" in show(a)[:40] for t in (a,))]


def validation(path):
    """Whether the path is the one where the symbolic amplitudes were found not to be those of a state."""
    return any("isclose(" in show(a)[:60] and v is False for a, v in path.guards) and path.kind == "raise" and path.value[0] == "ValueError"


def items(v):
    if isinstance(v, Term) and v.op == "list":
        return [items(x) for x in v.args]
    if isinstance(v, tuple):
        return [items(x) for x in v]
    if isinstance(v, Term) and v.op in ("complex", "float") and len(v.args) == 1:
        return items(v.args[0])
    return v


def result(p):
    """Single value of a path, its casts to complex or float removed."""
    return items(p.frozen)


def run(rep):
    rep.share(jobs_of(rep), lambda j: j[0](j[1]))
    rep.floor_total(450)


def jobs_of(rep, top=None, densities=True, setup=None, after=None):
    """The obligations, each a function and its argument; ``setup`` prepares the interpreter and ``after`` is told when an operation on a state vector has been interpreted."""
    top = top or (5 if rep.tier == "thorough" else 4)
    where = {}

    def loc(cls, name):
        key = (cls, name)
        if key not in where:
            m = method(rep, cls, name)
            rep.analysed(m)
            where[key] = m.loc()
        return where[key]

    def observe(path, want, nq, old=None):
        """What is wrong with (value, psi, nqubit)."""
        if path.kind != "return":
            return f"raises {path.value[0]}: {show(path.value[1])[:100]}"
        v, psi, n = result(path)
        if n != nq:
            return f"the state has {n} qubits instead of {nq}"
        if not D.same(psi, want):
            k = next((i for i, (x, y) in enumerate(zip(psi, want, strict=False)) if not D.same(x, y)), None)
            return f"{len(psi)} amplitudes instead of {len(want)}" if k is None else f"element {k} is {show(psi[k])[:150]} instead of {show(want[k])[:150]}"
        if old is not None and not D.same(v, old):
            return f"the value is {show(v)[:150]} instead of {show(old)[:150]}"
        return None

    def sv(job):
        """One operation on a state vector: (rule, method, expression on s, n, capacity, args, expected amplitudes, qubits, expected value)."""
        rule, name, expr, n, cap, args, want, nq, value = job
        key = f"Statevector.{name} {rule}: {n} qubits, capacity {cap}"
        at = loc(f"{SV}.Statevector", name)
        with rep.guard(name, key):
            a = D.amps("a", 2**n)
            ps = outcomes(rep, SV, f"(lambda s: ({expr}, s.psi.tolist(), s.nqubit))(Statevector(a, max_qubits={cap}))", rec=8, models=True, arrays=True, a=a, setup=setup, **args)
            if after:
                after(key, at)
            ps = [p for p in ps if not validation(p)]
            if not ps:
                raise AnalysisError("no outcome")
            bad = [w for p in ps if (w := (observe(p, want, nq, value) if not callable(want) else None))]
            if callable(want):
                bad = want(ps)
            rep.expect(not bad, name, key, at, "; ".join(bad[:2]))

    def dm(job):
        rule, name, expr, n, args, want, nq, value = job
        key = f"DensityMatrix.{name} {rule}: {n} qubits"
        at = loc(f"{DM}.DensityMatrix", name)
        with rep.guard("density " + name, key):
            rho = D.matrix("r", 2**n)
            ps = outcomes(rep, DM, f"(lambda s: (setattr(s, 'rho', np.array(rho, dtype=np.complex128)), ({expr}, s.rho.tolist(), s.nqubit))[1])(DensityMatrix(nqubit={n}))", rec=8, models=True, arrays=True, rho=rho, **args)
            # a matrix of unknown entries need not be Hermitian, nor the fidelity real
            ps = [p for p in ps if not validation(p) and not (name == "fidelity" and p.kind == "raise" and p.value[0] == "AssertionError")]
            if not ps:
                raise AnalysisError("no outcome")
            bad = [w for p in ps if (w := observe(p, want, nq, value))]
            rep.expect(not bad, "density " + name, key, at, "; ".join(bad[:2]))

    def projected(n, q, op):
        phi = D.apply(op, D.amps("a", 2**n), (q,), n)
        part = [D.part(phi, q, x, n) for x in (0, 1)]
        norm = [D.norm2(x) for x in part]
        want = [D.unit(x) for x in part]

        def limit(a, v):
            """(which norm, above) told by a guard: norm compared with a small constant."""
            if not (isinstance(a, Term) and a.op == "lt0"):
                return None
            for k in (0, 1):
                for sign in (1, -1):
                    c = D.total([a.args[0], *([D.pmul(norm[k], -sign)])])
                    if is_num(c) and abs(c) < 1e-6:
                        # sign * norm + c < 0
                        return k, (v if sign == -1 else not v)
            return None

        def check(ps):
            bad, seen = [], set()
            for p in ps:
                known = [x for x in (limit(a, v) for a, v in p.guards) if x]
                d = dict(known)
                if p.kind == "raise":
                    if d.get(0) is False and d.get(1) is False:
                        seen.add("none")
                    else:
                        bad.append(f"raises {p.value[0]}: {show(p.value[1])[:100]}")
                    continue
                _, psi, m = result(p)
                if m != n - 1:
                    bad.append(f"{m} qubits are left of {n}")
                    continue
                k = next((k for k in (0, 1) if D.same(psi, want[k])), None)
                if k is None:
                    bad.append(f"the state left is {show(psi)[:200]}, which is neither part of the projected state")
                    continue
                if d.get(k) is not True:
                    bad.append(f"the part where the qubit is {k} is used without a test that its norm is not zero")
                seen.add(k)
            return bad + [f"no outcome keeps the part where the qubit is {k}" for k in (0, 1) if k not in seen]

        return check

    jobs = []
    op2, op4, op8 = (D.matrix("m", k) for k in (2, 4, 8))
    for n in range(1, top + 1):
        a = D.amps("a", 2**n)
        rho = D.matrix("r", 2**n)
        for cap in (n, n + 1, n + 2)[: 3 if n < 3 else 2]:
            def S(rule, name, expr, want, nq=n, value=None, n=n, cap=cap, **args):
                jobs.append((sv, (rule, name, expr, n, cap, args, want, nq, value)))

            for q in range(n):
                S(f"qubit {q}", "evolve_single", f"s.evolve_single(np.array(op), {q})", D.apply(op2, a, (q,), n), op=op2)
                S(f"qubit {q}", "expectation_single", f"s.expectation_single(np.array(op), {q})", a, value=D.inner(a, D.apply(op2, a, (q,), n)), op=op2)
                S(f"qubit {q}", "project_qubit", f"s.project_qubit(np.array(op), {q})", projected(n, q, op2), op=op2)
                S(f"qubit {q}", "evolve", f"s.evolve(np.array(op), ({q},))", D.apply(op2, a, (q,), n), op=op2)
            for q, r in permutations(range(n), 2):
                S(f"qubits {q} {r}", "entangle", f"s.entangle(({q}, {r}))", D.apply(D.CZ, a, (q, r), n))
                S(f"qubits {q} {r}", "swap", f"s.swap(({q}, {r}))", D.apply(D.SWAP, a, (q, r), n))
                S(f"qubits {q} {r}", "evolve", f"s.evolve(np.array(op), ({q}, {r}))", D.apply(op4, a, (q, r), n), op=op4)
            for q, r in combinations(range(n), 2):
                S(f"qubits {r} {q}", "expectation_value", f"s.expectation_value(np.array(op), ({r}, {q}))", a, value=D.inner(a, D.apply(op4, a, (r, q), n)), op=op4)
            for pm in permutations(range(n)):
                S(f"order {pm}", "permute", f"s.permute({pm})", D.permuted(a, pm, n))
            if n <= 3:
                for m in (0, 1, 2):
                    if n + m <= 4:
                        b = D.amps("b", 2**m) if m else (1,)
                        for cap2 in (m, m + 1):
                            S(f"with {m} qubits, capacity {cap2}", "tensor", f"s.tensor(Statevector(b, max_qubits={cap2}))", D.tensor(a, b), nq=n + m, b=b)
                half = D.psqrt(Fraction(1, 2))
                for state, v in (("BasicStates.PLUS", (half, half)), ("BasicStates.MINUS", (half, -1)), ("BasicStates.ZERO", (1, 0)), ("BasicStates.ONE", (0, 1)), ("[BasicStates.ZERO, BasicStates.PLUS]", ())):
                    if state.endswith("MINUS"):
                        v = (half, D.pmul(half, -1))
                    k = 1 if v else 2
                    v = v or D.tensor((1, 0), (half, half))
                    S(f"{state}", "add_nodes", f"s.add_nodes({k}, {state})", D.tensor(a, v), nq=n + k)
                S("two in |+>", "add_nodes", "s.add_nodes(2, BasicStates.PLUS)", D.tensor(D.tensor(a, (half, half)), (half, half)), nq=n + 2)
                S("amplitudes", "add_nodes", "s.add_nodes(1, b)", D.tensor(a, D.amps("b", 2)), nq=n + 1, b=D.amps("b", 2))
        if n == 3:
            for pm in permutations(range(3)):
                S(f"qubits {pm}", "evolve", f"s.evolve(np.array(op), {pm})", D.apply(op8, a, pm, n), op=op8)
        b = D.amps("b", 2**n)
        ip = D.inner(a, b)
        S("", "fidelity", "s.fidelity(Statevector(b))", a, value=D.product_of(ip, D.conj(ip)), b=b)
        if n <= 3 and densities:
            def R(rule, name, expr, want, nq=n, value=None, n=n, **args):
                jobs.append((dm, (rule, name, expr, n, args, want, nq, value)))

            t = D.trace(rho)
            for q in range(n):
                R(f"qubit {q}", "evolve_single", f"s.evolve_single(np.array(op, dtype=np.complex128), {q})", D.sandwich(op2, rho, (q,), n), op=op2)
                R(f"qubit {q}", "evolve", f"s.evolve(np.array(op, dtype=np.complex128), ({q},))", D.sandwich(op2, rho, (q,), n), op=op2)
                R(f"qubit {q}", "expectation_single", f"s.expectation_single(np.array(op, dtype=np.complex128), {q})", rho, value=D.product_of(D.trace(D.left(op2, rho, (q,), n)), D.pinv(t)), op=op2)
                out = D.ptrace(rho, (q,), n)
                R(f"qubit {q}", "ptrace", f"s.ptrace({q})", out, nq=n - 1)
                R(f"qubit {q}", "remove_qubit", f"s.remove_qubit({q})", [D.scaled(row, D.pinv(t)) for row in out], nq=n - 1)
                phi = D.ptrace(D.sandwich(op2, rho, (q,), n), (q,), n)
                R(f"qubit {q}", "project_qubit", f"s.project_qubit(np.array(op, dtype=np.complex128), {q})", [D.scaled(row, D.pinv(D.trace(phi))) for row in phi], nq=n - 1, op=op2)
            for q, r in permutations(range(n), 2):
                R(f"qubits {q} {r}", "entangle", f"s.entangle(({q}, {r}))", D.sandwich(D.CZ, rho, (q, r), n))
                R(f"qubits {q} {r}", "swap", f"s.swap(({q}, {r}))", D.sandwich(D.SWAP, rho, (q, r), n))
                R(f"qubits {q} {r}", "cnot", f"s.cnot(({q}, {r}))", D.sandwich(D.CNOT, rho, (q, r), n))
                R(f"qubits {q} {r}", "evolve", f"s.evolve(np.array(op, dtype=np.complex128), ({q}, {r}))", D.sandwich(op4, rho, (q, r), n), op=op4)
                R(f"qubits {q} {r}", "ptrace", f"s.ptrace([{q}, {r}])", D.ptrace(rho, (q, r), n), nq=n - 2)
            for pm in permutations(range(n)):
                want = [D.permuted([rho[i][j] for i in range(2**n)], pm, n) for j in range(2**n)]
                want = [D.permuted([want[j][i] for j in range(2**n)], pm, n) for i in range(2**n)]
                R(f"order {pm}", "permute", f"s.permute({pm})", want)
            if n == 3:
                for pm in list(permutations(range(3)))[1:] if top > 4 else [(1, 2, 0), (2, 1, 0)]:
                    R(f"qubits {pm}", "evolve", f"s.evolve(np.array(op, dtype=np.complex128), {pm})", D.sandwich(op8, rho, pm, n), op=op8)
                R("all", "ptrace", "s.ptrace((2, 0, 1))", D.ptrace(rho, (2, 0, 1), n), nq=0)
            R("", "normalize", "s.normalize()", [D.scaled(row, D.pinv(t)) for row in rho])
            half = Fraction(1, 2)
            R("|+>", "add_nodes", "s.add_nodes(1, BasicStates.PLUS)", kron(rho, ((half, half), (half, half))), nq=n + 1)
            R("|1>", "add_nodes", "s.add_nodes(1, BasicStates.ONE)", kron(rho, ((0, 0), (0, 1))), nq=n + 1)
            b = D.amps("b", 2)
            R("amplitudes", "add_nodes", "s.add_nodes(1, b)", kron(rho, [[D.product_of(x, D.conj(y)) for y in b] for x in b]), nq=n + 1, b=b)
            c = D.amps("c", 2**n)
            R("", "fidelity", "s.fidelity(Statevector(c))", rho, value=real(D.inner(c, [D.total(D.product_of(rho[i][j], c[j]) for j in range(2**n)) for i in range(2**n)])), c=c)
    return jobs


def kron(a, b):
    return [[D.product_of(x, y) for x in r for y in s] for r in a for s in b]
