"""Exact matrices over Laurent polynomials in phases e^{iπ·angle} with coefficients in Q(e^{iπ/4})."""

from __future__ import annotations

from fractions import Fraction

from .program import AnalysisError
from .values import Ext, Term, is_num, to_poly

# element of Q(zeta8): 4 rationals; ring element: {phase: coeffs}; phase: frozenset of (symbol, rational) meaning e^{iπ Σ q·symbol}
ZERO = {}


def _n(c):
    """A rational, as an integer when it is one (integers compute faster)."""
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c if isinstance(c, (int, Fraction)) else _n(Fraction(c))


def _z(k, c=1):
    """c * zeta8^k."""
    k %= 8
    v = [0, 0, 0, 0]
    if k >= 4:
        v[k - 4] = -_n(c)
    else:
        v[k] = _n(c)
    return tuple(v)


_Z0 = (0, 0, 0, 0)


def _zmul(a, b):
    a0, a1, a2, a3 = a
    b0, b1, b2, b3 = b
    if not (b1 or b2 or b3):
        return (a0 * b0, a1 * b0, a2 * b0, a3 * b0)
    if not (a1 or a2 or a3):
        return (a0 * b0, a0 * b1, a0 * b2, a0 * b3)
    return (
        a0 * b0 - a1 * b3 - a2 * b2 - a3 * b1,
        a0 * b1 + a1 * b0 - a2 * b3 - a3 * b2,
        a0 * b2 + a1 * b1 + a2 * b0 - a3 * b3,
        a0 * b3 + a1 * b2 + a2 * b1 + a3 * b0,
    )


def num(c):
    c = _n(c if not isinstance(c, bool) else int(c))
    return {frozenset(): (c, 0, 0, 0)} if c else {}


def add(a, b):
    if not a:
        return b
    if not b:
        return a
    out = dict(a)
    for p, c in b.items():
        o = out.get(p)
        if o is None:
            out[p] = c
            continue
        s = (o[0] + c[0], o[1] + c[1], o[2] + c[2], o[3] + c[3])
        if s == _Z0:
            del out[p]
        else:
            out[p] = s
    return out


_PHASES = {}


def _join(p, q):
    """Product of two formal phases."""
    if not p:
        return q
    if not q:
        return p
    r = _PHASES.get((p, q))
    if r is None:
        e = {}
        for s, k in (*p, *q):
            e[s] = e.get(s, 0) + k
        r = _PHASES[p, q] = frozenset((s, _n(k)) for s, k in e.items() if k)
    return r


def mul(a, b):
    if not a or not b:
        return {}
    out = {}
    for p, c in a.items():
        for q, d in b.items():
            ph = _join(p, q)
            v = _zmul(c, d)
            o = out.get(ph)
            out[ph] = v if o is None else (o[0] + v[0], o[1] + v[1], o[2] + v[2], o[3] + v[3])
    return {p: c for p, c in out.items() if c != _Z0}


def phase(q, syms):
    """e^{iπ(q + Σ c·sym)}."""
    q = Fraction(q)
    k = q * 4
    if k.denominator != 1:
        # an angle which is not a multiple of π/4 stays a formal phase modulo 2
        whole = int(q // Fraction(1, 4))
        return {frozenset([*syms.items(), ("frac", q - Fraction(whole, 4))]): _z(whole)}
    return {frozenset((s, c) for s, c in syms.items() if c): _z(int(k))}


I_ = {frozenset(): _z(2)}
SQRT2 = {frozenset(): (0, 1, 0, -1)}


def _is_pi(a):
    return isinstance(a, Ext) and str(a).endswith("pi") or (isinstance(a, Ext) and "pi" in repr(a)) or (isinstance(a, Term) and a.op == "global" and str(a.args[0]).endswith(".pi"))


def _angle(poly):
    """poly = π·(q + Σ c·sym): returns (q, {sym: c})."""
    q, syms = Fraction(0), {}
    for mono, c in poly.items():
        pis = [p for a, p in mono if _is_pi(a)]
        rest = [(a, p) for a, p in mono if not _is_pi(a)]
        if pis != [1]:
            raise AnalysisError("angle which is not a multiple of π")
        if not rest:
            q += c
        elif len(rest) == 1 and rest[0][1] == 1:
            syms[rest[0][0]] = syms.get(rest[0][0], 0) + c
        else:
            syms[tuple(rest)] = syms.get(tuple(rest), 0) + c
    return q, syms


def ring(t):
    """Ring element denoted by a scalar term."""
    if isinstance(t, dict):
        return t
    if isinstance(t, complex):
        r = {}
        if t.real:
            r = add(r, num(Fraction(t.real)))
        if t.imag:
            r = add(r, mul(I_, num(Fraction(t.imag))))
        return r
    if is_num(t) or isinstance(t, bool):
        return num(Fraction(t))
    out = {}
    for mono, c in to_poly(t).items():
        x = num(c)
        for a, p in mono:
            b = _atom(a)
            if p < 0:
                b = _inv(b)
                p = -p
            if Fraction(p).denominator != 1:
                raise AnalysisError("fractional power")
            for _ in range(int(p)):
                x = mul(x, b)
        out = add(out, x)
    return out


def _inv(b):
    if len(b) == 1:
        (p, c), = b.items()
        nz = [(i, x) for i, x in enumerate(c) if x]
        if len(nz) == 1:
            i, x = nz[0]
            return {frozenset((s, -k) for s, k in p): _z(-i, 1 / x)}
        if not p and c == SQRT2[frozenset()]:
            return mul(SQRT2, num(Fraction(1, 2)))
    raise AnalysisError("division out of reach")


def _sqrt(x):
    """Square root of a known non-negative rational, twice a square or a square."""
    from math import isqrt

    if not x:
        return {}
    if set(x) != {frozenset()} or any(x[frozenset()][1:]) or x[frozenset()][0] < 0:
        return None
    c = x[frozenset()][0]
    for k in (1, 2):
        d = c / k
        n, m = isqrt(d.numerator), isqrt(d.denominator)
        if n * n == d.numerator and m * m == d.denominator:
            r = num(Fraction(n, m))
            return r if k == 1 else mul(r, SQRT2)
    return None


def _atom(a):
    if isinstance(a, Term):
        if a.op == "imag":
            return I_
        if a.op == "sqrt":
            if a.args[0] == 2:
                return SQRT2
            r = _sqrt(ring(a.args[0]))
            if r is not None:
                return r
            raise AnalysisError(f"square root {a}")
        if a.op in ("cos", "sin", "exp"):
            poly = to_poly(a.args[0])
            if a.op == "exp":
                im = {}
                for mono, c in poly.items():
                    ks = [p for x, p in mono if isinstance(x, Term) and x.op == "imag"]
                    if ks != [1]:
                        raise AnalysisError("exponential which is not a phase")
                    im[tuple((x, p) for x, p in mono if not (isinstance(x, Term) and x.op == "imag"))] = c
                q, s = _angle(im)
                return phase(q, s)
            if not poly:
                return num(1 if a.op == "cos" else 0)
            q, s = _angle(poly)
            e, f = phase(q, s), phase(-q, {k: -v for k, v in s.items()})
            if a.op == "cos":
                return mul(add(e, f), num(Fraction(1, 2)))
            return mul(mul(add(e, mul(f, num(-1))), num(Fraction(1, 2))), {frozenset(): _z(6)})
    raise AnalysisError(f"scalar {a} out of reach")


def matrix(t):
    """Matrix denoted by a term (nested lists of scalars)."""
    if isinstance(t, Term) and t.op == "list":
        rows = []
        for r in t.args:
            if isinstance(r, Term) and r.op == "list":
                rows.append([ring(x) for x in r.args])
            elif isinstance(r, tuple):
                rows.append([ring(x) for x in r])
            else:
                raise AnalysisError(f"row {r} out of reach")
        return rows
    raise AnalysisError(f"matrix {str(t)[:80]} out of reach")


def mm(a, b):
    n, m, k = len(a), len(b[0]), len(b)
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            s = {}
            for x in range(k):
                if a[i][x] and b[x][j]:
                    s = add(s, mul(a[i][x], b[x][j]))
            row.append(s)
        out.append(row)
    return out


def conj(x):
    return {frozenset((s, -k) for s, k in p): _zconj(c) for p, c in x.items()}


def _zconj(c):
    return (c[0], -c[3], -c[2], -c[1])


def dag(a):
    return [[conj(a[i][j]) for i in range(len(a))] for j in range(len(a[0]))]


def kron(a, b):
    return [[mul(a[i][j], b[k][l]) for j in range(len(a[0])) for l in range(len(b[0]))] for i in range(len(a)) for k in range(len(b))]


def eye(n):
    return [[num(int(i == j)) for j in range(n)] for i in range(n)]


def scale(a, s):
    return [[mul(x, s) for x in r] for r in a]


def madd(a, b):
    return [[add(x, y) for x, y in zip(r, s)] for r, s in zip(a, b)]


def meq(a, b):
    return a == b


def proportional(a, b):
    """Equality up to a non-zero scalar."""
    fa = [x for r in a for x in r]
    fb = [x for r in b for x in r]
    if len(fa) != len(fb) or not any(fa) or not any(fb):
        return False
    if any(bool(x) != bool(y) for x, y in zip(fa, fb)):
        return False
    i = next(k for k, x in enumerate(fa) if x)
    return all(mul(fa[k], fb[i]) == mul(fa[i], fb[k]) for k in range(len(fa)))


def unitary(a):
    return meq(mm(dag(a), a), eye(len(a)))


def embed(g, qubits, n):
    """Operator of a gate on the qubits of an n-qubit register (qubit 0 most significant)."""
    k = len(qubits)
    dim = 1 << n
    out = [[{} for _ in range(dim)] for _ in range(dim)]
    rest = [q for q in range(n) if q not in qubits]
    for col in range(dim):
        bits = [(col >> (n - 1 - q)) & 1 for q in range(n)]
        cin = 0
        for q in qubits:
            cin = 2 * cin + bits[q]
        for rout in range(1 << k):
            v = g[rout][cin]
            if v:
                nb = list(bits)
                for idx, q in enumerate(qubits):
                    nb[q] = (rout >> (k - 1 - idx)) & 1
                row = 0
                for q in range(n):
                    row = 2 * row + nb[q]
                out[row][col] = v
    return out


def C(re=0, im=0):
    return add(num(re), mul(I_, num(im)))


def M(*rows):
    return [[x if isinstance(x, dict) else C(Fraction(x.real), Fraction(x.imag)) if isinstance(x, complex) else num(x) for x in r] for r in rows]


H_ = [[mul(x, mul(SQRT2, num(Fraction(1, 2)))) for x in r] for r in M([1, 1], [1, -1])]
GATES = {
    "I": M([1, 0], [0, 1]), "X": M([0, 1], [1, 0]), "Y": M([0, -1j], [1j, 0]), "Z": M([1, 0], [0, -1]),
    "S": M([1, 0], [0, 1j]), "SDG": M([1, 0], [0, -1j]), "H": H_,
    "CNOT": M([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]),
    "CZ": M([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]),
    "SWAP": M([1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]),
    "CCX": [[num(int(i == (j if j < 6 else 13 - j))) for j in range(8)] for i in range(8)],
}


def ph(sym, c):
    """e^{iπ c sym} for a symbolic angle, or a rational angle."""
    if is_num(sym):
        return phase(Fraction(sym) * Fraction(c), {})
    q, s = Fraction(0), {}
    for mono, k in to_poly(sym).items():
        if not mono:
            q += k * Fraction(c)
        else:
            key = mono[0][0] if len(mono) == 1 and mono[0][1] == 1 else tuple(mono)
            s[key] = s.get(key, 0) + k * Fraction(c)
    return phase(q, s)


def rotation(kind, angle):
    """Gate of a rotation by angle (units of π)."""
    h = Fraction(1, 2)
    e, f = ph(angle, h), ph(angle, -h)
    cos = mul(add(e, f), num(h))
    isin = mul(add(e, mul(f, num(-1))), num(h))  # i·sin
    minus = num(-1)
    if kind == "RX":
        return [[cos, mul(isin, minus)], [mul(isin, minus), cos]]
    if kind == "RY":
        sin = mul(isin, {frozenset(): _z(6)})
        return [[cos, mul(sin, minus)], [sin, cos]]
    if kind == "RZ":
        return [[f, {}], [{}, e]]
    if kind == "RZZ":
        return [[f if i == j and i in (0, 3) else e if i == j else {} for j in range(4)] for i in range(4)]
    if kind == "J":
        r = mul(SQRT2, num(h))
        w = mul(r, ph(angle, 1))
        return [[r, w], [r, mul(w, minus)]]
    raise AnalysisError(f"unknown rotation {kind}")
