"""Meaning of command sequences: the exact linear map each outcome branch applies, over Q(e^{iπ/4}) with symbolic angles."""

from __future__ import annotations

from itertools import combinations, product

from . import mat
from .program import AnalysisError
from .values import EMPTY, EnumVal, Term, is_num, show, to_poly

TWO, FOUR = mat.num(2), mat.num(4)
MINUS = mat.num(-1)


def items(t):
    """Elements of a known set (or sequence)."""
    if t == EMPTY:
        return ()
    if isinstance(t, (tuple, list)):
        return tuple(t)
    if isinstance(t, Term) and t.op == "setlit":
        return tuple(sorted(t.args[0], key=show))
    if isinstance(t, Term) and t.op == "list" and not any(isinstance(x, Term) and x.op == "splat" for x in t.args):
        return tuple(t.args)
    raise AnalysisError(f"not a known set: {show(t)[:200]}")


def flds(t):
    if isinstance(t, Term) and t.op == "new":
        return dict(t.args[1])
    raise AnalysisError(f"not a known command: {show(t)[:200]}")


def kind(t):
    if isinstance(t, Term) and t.op == "new":
        return t.args[0].rsplit(".", 1)[-1]
    raise AnalysisError(f"not a known command: {show(t)[:200]}")


def angle(t):
    """An angle modulo 2 (units of π)."""
    while isinstance(t, Term) and t.op == "mod" and is_num(t.args[1]) and t.args[1] % 2 == 0:
        t = t.args[0]
    if is_num(t):
        return t
    for mono, _ in to_poly(t).items():
        for a, _p in mono:
            if isinstance(a, Term) and a.op == "mod":
                raise AnalysisError(f"angle {show(t)[:100]} out of reach")
    return t


def direction(plane, a):
    """Twice the observable of an angle in a plane."""
    e, f = mat.ph(angle(a), 1), mat.ph(angle(a), -1)
    cos = mat.add(e, f)
    sin = mat.mul(mat.add(e, mat.mul(f, MINUS)), {frozenset(): mat._z(6)})
    u, v = {"XY": "XY", "YZ": "ZY", "XZ": "ZX"}[plane]
    return mat.madd(mat.scale(mat.GATES[u], cos), mat.scale(mat.GATES[v], sin))


def observable(m):
    """Twice the observable of a measurement."""
    d = flds(m)
    if "sign" in d:
        return mat.scale(mat.GATES[d["axis"].name], mat.num({"PLUS": 2, "MINUS": -2}[d["sign"].name]))
    return direction(d["plane"].name, d["angle"])


def projector(obs, r):
    """Four times the projector on an outcome, from twice the observable."""
    return mat.madd(mat.scale(mat.eye(2), TWO), mat.scale(obs, MINUS) if r else obs)


class Tensor:
    """Amplitudes over named legs (inputs are both input legs and live nodes)."""

    def __init__(self, inputs):
        n = len(inputs)
        self.legs = [("in", q) for q in inputs] + list(inputs)
        self.v = [mat.num(1) if (i >> n) == (i & ((1 << n) - 1)) else {} for i in range(1 << (2 * n))]
        self.weight = mat.num(1)

    def axis(self, node):
        if node not in self.legs:
            raise Missing(node)
        return len(self.legs) - 1 - self.legs.index(node)

    def prepare(self, node, vec):
        if node in self.legs:
            raise AnalysisError(f"node {node} prepared twice")
        self.legs.append(node)
        self.v = [mat.mul(x, c) if x else {} for x in self.v for c in vec]

    def single(self, node, g):
        k = self.axis(node)
        out = []
        for i, x in enumerate(self.v):
            j = i ^ (1 << k)
            b = (i >> k) & 1
            r = mat.mul(g[b][b], x) if g[b][b] and x else {}
            if g[b][1 - b] and self.v[j]:
                r = mat.add(r, mat.mul(g[b][1 - b], self.v[j]))
            out.append(r)
        self.v = out

    def cz(self, a, b):
        k, l = self.axis(a), self.axis(b)
        if k == l:
            raise AnalysisError("an entanglement of a node with itself")
        self.v = [mat.mul(x, MINUS) if x and (i >> k) & 1 and (i >> l) & 1 else x for i, x in enumerate(self.v)]

    def project(self, node, p):
        """Measure out a node, with four times a rank-one projector."""
        k = self.axis(node)
        i = 0 if p[0][0] else 1
        bra = p[i]
        self.weight = mat.mul(mat.mul(self.weight, p[i][i]), FOUR)
        lo = (1 << k) - 1
        out = []
        for j in range(len(self.v) // 2):
            base = ((j & ~lo) << 1) | (j & lo)
            r = {}
            for b in (0, 1):
                x = self.v[base | (b << k)]
                if x and bra[b]:
                    r = mat.add(r, mat.mul(bra[b], x))
            out.append(r)
        self.v = out
        self.legs.pop(len(self.legs) - 1 - k)

    def matrix(self, inputs, outputs):
        want = [("in", q) for q in inputs] + list(outputs)
        if set(want) != set(self.legs) or len(want) != len(self.legs):
            raise Missing(f"remaining nodes {sorted(map(str, (x for x in self.legs if not isinstance(x, tuple))))}, outputs {list(outputs)}")
        n = len(self.legs)
        pos = [self.axis(x) for x in want]
        m = [[{} for _ in range(1 << len(inputs))] for _ in range(1 << len(outputs))]
        for w in range(1 << n):
            i = 0
            for k, p in enumerate(pos):
                if (w >> (n - 1 - k)) & 1:
                    i |= 1 << p
            m[w & ((1 << len(outputs)) - 1)][w >> len(outputs)] = self.v[i]
        return m


class Missing(Exception):
    """A sequence that cannot run: a node is not there, or an outcome is not known."""


def run(cmds, inputs, outputs, outcomes, clifford):
    """(map, weight) of one outcome branch; outcomes: node -> bit reported by the measurement."""
    t = Tensor(inputs)
    res = {}

    def odd(dom):
        n = 0
        for x in items(dom):
            if x not in res:
                raise Missing(f"outcome of {show(x)} used before the measurement")
            n += res[x]
        return n % 2

    for c in cmds:
        k, d = kind(c), flds(c)
        if k == "N":
            s = flds(d["state"])
            p = projector(direction(s["plane"].name, s["angle"]), 0)
            i = 0 if p[0][0] else 1
            t.prepare(d["node"], [p[0][i], p[1][i]])
            t.weight = mat.mul(mat.mul(t.weight, p[i][i]), FOUR)
        elif k == "E":
            t.cz(*items(d["nodes"]))
        elif k == "M":
            if odd(d["s_domain"]):
                t.single(d["node"], mat.GATES["X"])
            if odd(d["t_domain"]):
                t.single(d["node"], mat.GATES["Z"])
            b = outcomes[d["node"]]
            t.project(d["node"], projector(observable(d["measurement"]), b))
            res[d["node"]] = b
        elif k in ("X", "Z"):
            if odd(d["domain"]):
                t.single(d["node"], mat.GATES[k])
            else:
                t.axis(d["node"])
        elif k == "C":
            t.single(d["node"], clifford(d["clifford"]))
        elif k == "S":
            if d["node"] not in res:
                raise Missing(f"signal of {show(d['node'])} before its measurement")
            res[d["node"]] ^= odd(d["domain"])
        elif k != "T":
            raise AnalysisError(f"command {k} without a meaning in the model")
    return t.matrix(inputs, outputs), t.weight, res


def measured(cmds):
    return [flds(c)["node"] for c in cmds if kind(c) == "M"]


def branches(nodes, limit=5):
    """Outcome assignments: all of them for few nodes, else at most two flips from each of the two uniform ones."""
    n = len(nodes)
    if n <= limit:
        yield from (dict(zip(nodes, bits)) for bits in product((0, 1), repeat=n))
        return
    for base in (0, 1):
        for k in range(0, 2):
            for flip in combinations(range(n), k):
                yield {x: base ^ (i in flip) for i, x in enumerate(nodes)}


def norm(m):
    """Squared modulus of the first entry which is not zero: compares scalar multiples of one map."""
    x = next(x for row in m for x in row if x)
    return mat.mul(mat.conj(x), x)
