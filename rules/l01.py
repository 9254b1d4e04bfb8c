"""L01: linear algebra over GF(2)."""

from itertools import product

from sa.h import *

TECHNIQUE = "static analysis: abstract interpretation of the linear algebra, compiled kernels included, over all matrices of bounded size; results compared with the definitions over GF(2)"
RULE = (
    "Every operation of MatGF2 is interpreted, down to the loops of the compiled kernels and the memory layout of its arguments, on every matrix of up to three rows and columns (and families of larger ones, transposed and strided ones), and its result compared with the definition: rank, a basis of the null space, a right inverse or None, an echelon form reached by row operations on the columns asked for (reduced or not), the product, and a solution of a solvable system in echelon form. Operands which are not to be changed must be left as they were."
)
ASSUMPTIONS = ("numpy and numba have their documented semantics (model in sa/arrays.py)", "matrices of up to 3 by 3, and families of up to 4 by 5 (more with --thorough)")
LA = "graphix._linalg"


def lists(v):
    if isinstance(v, Term) and v.op == "list":
        return [lists(x) for x in v.args]
    if isinstance(v, tuple):
        return [lists(x) for x in v]
    return v


def span(rows, n):
    out = {(0,) * n}
    for r in rows:
        out |= {tuple(x ^ y for x, y in zip(v, r)) for v in out}
    return out


def rank(rows, n):
    return len(span(rows, n)).bit_length() - 1


def times(a, b, n):
    return [[sum(x * b[k][j] for k, x in enumerate(r)) % 2 for j in range(n)] for r in a]


def echelon(rows, ncols, full):
    """What is wrong with the first columns of an echelon form."""
    last, pivots = -1, []
    for i, r in enumerate(rows):
        j = next((j for j in range(ncols) if r[j]), None)
        if j is None:
            last = ncols
            continue
        if j <= last:
            return f"row {i} does not start after the row above it"
        last = j
        pivots.append((i, j))
    if full:
        for i, j in pivots:
            if any(rows[k][j] for k in range(len(rows)) if k != i):
                return f"column {j} of a pivot has other ones"
    return None


def run(rep):
    where = {}

    def loc(name):
        if name not in where:
            m = rep.prog.func(f"{LA}.{name}")
            rep.analysed(m)
            where[name] = m.loc()
        return where[name]

    def value(expr, key, **args):
        ps = outcomes(rep, LA, expr, rec=8, models=True, arrays=True, **args)
        if len(ps) != 1 or ps[0].guards:
            raise AnalysisError(f"{len(ps)} outcomes")
        if ps[0].kind == "raise":
            if ps[0].value[0] == "AnalysisError":
                raise AnalysisError(show(ps[0].value))
            return ("raises", ps[0].value[0], show(ps[0].value[1])[:80])
        return lists(ps[0].frozen)

    def failed(v, n):
        return not isinstance(v, (list, tuple)) or (len(v) == 3 and v[0] == "raises")

    FORMS = {"": "MatGF2(a)", " transposed": "MatGF2(b).T", " strided": "MatGF2(c)[::2]"}

    def given(a, form):
        m, n = len(a), len(a[0]) if a else 0
        if form == " transposed":
            return {"b": tuple(tuple(a[i][j] for i in range(m)) for j in range(n))}
        if form == " strided":
            return {"c": tuple(r for row in a for r in (row, tuple(1 - x for x in row)))}
        return {"a": a}

    def matrix(job):
        a, form = job
        m, n = len(a), len(a[0])
        key = f"{[list(r) for r in a]}{form}"
        want_rank, args = rank(a, n), given(a, form)
        with rep.guard("matrix", key):
            v = value(f"(lambda s: (int(s.rank()), s.null_space().tolist(), (lambda r: None if r is None else r.tolist())(s.right_inverse()), s.gauss_elimination().tolist(), s.row_reduction().tolist(), s.tolist()))({FORMS[form]})", key, **args)
            if v[0] == "raises":
                rep.bad("matrix", key, loc("MatGF2.rank"), f"an operation raises {v[1]}: {v[2]}")
                return
            r, null, rinv, ref, red, after = v
            rep.expect(r == want_rank, "rank", key, loc("MatGF2.rank"), f"is {r} instead of {want_rank}")
            ok = len(null) == n - want_rank and all(len(x) == n for x in null) and rank(null, n) == len(null) and all(sum(x * y for x, y in zip(row, v)) % 2 == 0 for row in a for v in null)
            rep.expect(ok, "null space", key, loc("MatGF2.null_space"), f"{show(tuple(map(tuple, null)))[:100]} is not a basis of the null space, of dimension {n - want_rank}")
            if want_rank < m:
                rep.expect(rinv is None, "right inverse", key, loc("MatGF2.right_inverse"), "a matrix without right inverse is given one")
            else:
                ok = rinv is not None and len(rinv) == n and times(a, rinv, m) == [[int(i == j) for j in range(m)] for i in range(m)]
                rep.expect(ok, "right inverse", key, loc("MatGF2.right_inverse"), f"{rinv} is not a right inverse")
            for what, x, full in (("gauss_elimination", ref, False), ("row_reduction", red, True)):
                bad = echelon(x, n, full) or (None if span(x, n) == span(a, n) else "the rows do not span the same space")
                rep.expect(len(x) == m and not bad, what, key, loc(f"MatGF2.{what}"), f"{x}: {bad}")
            rep.expect(after == [list(x) for x in a], "unchanged", key, loc("MatGF2.rank"), f"the matrix is {after} afterwards")

    def partial(job):
        a, form, ncols = job
        m, n = len(a), len(a[0])
        key = f"{[list(r) for r in a]}{form}, {ncols} columns"
        for what, full in (("gauss_elimination", False), ("row_reduction", True)):
            with rep.guard(what, key):
                for copy in (True, False):
                    v = value(f"(lambda s: (s.{what}(ncols={ncols}, copy={copy}).tolist(), s.tolist()))({FORMS[form]})", key, **given(a, form))
                    if v[0] == "raises":
                        rep.bad(what, f"{key}, copy={copy}", loc(f"MatGF2.{what}"), f"raises {v[1]}: {v[2]}")
                        continue
                    x, after = v
                    bad = echelon(x, ncols, full) or (None if span(x, n) == span(a, n) and len(x) == m else "the rows do not span the same space")
                    if not bad and copy and after != [list(r) for r in a]:
                        bad = "the matrix itself is changed"
                    if not bad and not copy and form == "" and after != x:
                        bad = "the matrix itself is not changed"
                    rep.expect(not bad, what, f"{key}, copy={copy}", loc(f"MatGF2.{what}"), f"{x}: {bad}")

    def system(a):
        m, n = len(a), len(a[0])
        key = f"{[list(r) for r in a]}"
        with rep.guard("system", key):
            bad = []
            for b in sorted({tuple(sum(r[j] * x[j] for j in range(n)) % 2 for r in a) for x in product((0, 1), repeat=n)}):
                aug = tuple((*r, y) for r, y in zip(a, b))
                v = value(f"(lambda s: (lambda r: solve_f2_linear_system(r[:, :{n}], r[:, {n}]).tolist())(s.gauss_elimination(ncols={n})))(MatGF2(a))", key, a=aug)
                if v[:1] == ["raises"] or (isinstance(v, tuple)):
                    bad.append(f"for b = {list(b)} it raises {v[1]}: {v[2]}")
                elif len(v) != n or [sum(r[j] * v[j] for j in range(n)) % 2 for r in a] != list(b):
                    bad.append(f"for b = {list(b)} it gives {v}, which is not a solution")
            rep.expect(not bad, "system", key, loc("solve_f2_linear_system"), "; ".join(bad[:2]))

    def multiply(job):
        a, b, fa, fb = job
        key = f"{[list(r) for r in a]}{fa} by {[list(r) for r in b]}{fb}"
        with rep.guard("product", key):
            args = given(a, fa)
            rename = {"a": "p", "b": "q", "c": "r"}
            other = FORMS[fb].replace("(a)", "(p)").replace("(b)", "(q)").replace("(c)", "(r)")
            args.update({rename[k]: x for k, x in given(b, fb).items()})
            v = value(f"(lambda s, t: (s.mat_mul(t).tolist(), s.tolist(), t.tolist()))({FORMS[fa]}, {other})", key, **args)
            want = [times(a, b, len(b[0])), [list(r) for r in a], [list(r) for r in b]]
            rep.expect(list(v) == want, "product", key, loc("MatGF2.mat_mul"), f"gives {show(v)[:120]} instead of {want}")

    def refused(job):
        expr, args = job
        with rep.guard("refused", expr):
            v = value(expr, expr, **args)
            rep.expect(v[0] == "raises" and v[1] == "ValueError", "refused", expr, loc("MatGF2.mat_mul"), "matrices whose shapes do not match are multiplied")

    small = [tuple(tuple(bits[i * n : (i + 1) * n]) for i in range(m)) for m in (1, 2, 3) for n in (1, 2, 3) for bits in product((0, 1), repeat=m * n)]
    large = []
    for m, n in ((2, 4), (4, 2), (3, 4), (4, 3), (4, 4), (3, 5), (4, 5), (5, 4)):
        x = 7 * m + n
        for _ in range(40 if rep.tier == "thorough" else 8):
            bits = []
            for _ in range(m * n):
                x = (x * 1103515245 + 12345) % 2**31
                bits.append(x >> 16 & 1)
            large.append(tuple(tuple(bits[i * n : (i + 1) * n]) for i in range(m)))
    mid = small[:: 1 if rep.tier == "thorough" else 3]
    jobs = [(matrix, (a, "")) for a in small + large]
    jobs += [(matrix, (a, f)) for a in mid + large for f in FORMS if f]
    jobs += [(partial, (a, f, k)) for a in [x for x in mid[::2] if len(x[0]) > 1] + large for f in FORMS for k in sorted({1, len(a[0]) - 1})]
    jobs += [(system, a) for a in small + large]
    pairs = [(a, b) for a in mid[::5] + large[::5] for b in mid[::7] + large[::7] if len(a[0]) == len(b)]
    jobs += [(multiply, (a, b, "", "")) for a, b in pairs] + [(multiply, (a, b, f, g)) for a, b in pairs[::6] for f, g in product(FORMS, repeat=2) if f + g]
    one = ((1, 0, 1), (0, 1, 1))
    jobs += [(refused, (e, {"a": one})) for e in ("MatGF2(a).mat_mul(MatGF2(a))", "MatGF2(a).mat_mul(MatGF2(a)[0])", "MatGF2(a)[0].mat_mul(MatGF2(a).T)", "MatGF2(a).T.mat_mul(MatGF2(a).T)")]
    rep.share(jobs, lambda j: j[0](j[1]))
    for rule, n in (("rank", 700), ("null space", 700), ("right inverse", 700), ("gauss_elimination", 700), ("row_reduction", 700), ("system", 500), ("product", 100), ("refused", 3)):
        rep.floor(rule, n)
    rep.floor_total(5000)
