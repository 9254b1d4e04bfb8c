"""What operations on states do to symbolic amplitudes, by definition: the oracle for the dense simulators."""

from __future__ import annotations

from fractions import Fraction
from itertools import product

from .arrays import conj, product_of, total
from .values import IMAG, Term, pinv, pmul, psqrt

CPLX = ("prim", "complex")


def amp(*tag):
    return Term("amp", *tag, typ=CPLX)


def amps(tag, k):
    return tuple(amp(tag, i) for i in range(k))


def matrix(tag, d):
    return tuple(tuple(amp(tag, i, j) for j in range(d)) for i in range(d))


def bits(i, n):
    """Bits of a basis state, first qubit first."""
    return [i >> (n - 1 - k) & 1 for k in range(n)]


def number(b):
    r = 0
    for x in b:
        r = r * 2 + x
    return r


def apply(op, psi, qubits, n):
    """Operator on some qubits (the first of them most significant)."""
    k = len(qubits)
    out = []
    for i in range(2**n):
        b = bits(i, n)
        row = op[number([b[q] for q in qubits])]
        ts = []
        for j in range(2**k):
            if row[j] == 0 and not isinstance(row[j], Term):
                continue
            c = list(b)
            for q, x in zip(qubits, bits(j, k), strict=True):
                c[q] = x
            ts.append(product_of(row[j], psi[number(c)]))
        out.append(total(ts))
    return out


CZ = ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, -1))
CNOT = ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (0, 0, 1, 0))
SWAP = ((1, 0, 0, 0), (0, 0, 1, 0), (0, 1, 0, 0), (0, 0, 0, 1))


def permuted(psi, perm, n):
    """The qubit at place k of the result is qubit perm[k]."""
    out = []
    for i in range(2**n):
        b = bits(i, n)
        c = [0] * n
        for k, q in enumerate(perm):
            c[q] = b[k]
        out.append(psi[number(c)])
    return out


def tensor(psi, phi):
    return [product_of(x, y) for x in psi for y in phi]


def part(psi, q, x, n):
    """Amplitudes of the other qubits where qubit q is x."""
    return [psi[i] for i in range(2**n) if bits(i, n)[q] == x]


def inner(psi, phi):
    return total(product_of(conj(x), y) for x, y in zip(psi, phi, strict=True))


def norm2(psi):
    return inner(psi, psi)


def scaled(psi, c):
    return [product_of(x, c) for x in psi]


def unit(psi):
    return scaled(psi, pinv(psqrt(norm2(psi))))


# --- density matrices, as lists of rows
def left(op, rho, qubits, n):
    """Operator times a matrix."""
    cols = [apply(op, [rho[i][j] for i in range(2**n)], qubits, n) for j in range(2**n)]
    return [[cols[j][i] for j in range(2**n)] for i in range(2**n)]


def dagger(m):
    return [[conj(m[j][i]) for j in range(len(m))] for i in range(len(m[0]))]


def sandwich(op, rho, qubits, n):
    """op rho op†."""
    return dagger(left(op, dagger(left(op, rho, qubits, n)), qubits, n))


def trace(rho):
    return total(rho[i][i] for i in range(len(rho)))


def ptrace(rho, qubits, n):
    keep = [q for q in range(n) if q not in qubits]
    m = len(keep)

    def index(i, t):
        b = [0] * n
        for q, x in zip(keep, bits(i, m), strict=True):
            b[q] = x
        for q, x in zip(qubits, t, strict=True):
            b[q] = x
        return number(b)

    return [[total(rho[index(i, t)][index(j, t)] for t in product((0, 1), repeat=len(qubits))) for j in range(2**m)] for i in range(2**m)]


def same(x, y):
    """Two tables of numbers (lists of any depth)."""
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y) and all(same(p, q) for p, q in zip(x, y, strict=True))
    return x == y and isinstance(x, bool) == isinstance(y, bool) or total([x, pmul(y, -1)]) == 0


__all__ = [n for n in dir() if not n.startswith("_")]
