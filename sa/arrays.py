"""Arrays of known integers (numpy as used for linear algebra over GF(2)): memory shared between views, indexing, broadcasting."""

from __future__ import annotations

import ast
from fractions import Fraction
from itertools import product

from .interp import Raise_
from .program import AnalysisError
from .values import IMAG, EnumVal, Ext, Inst, ListV, Splat, Term, from_poly, is_num, padd, pmul, psqrt, to_poly

M = "npmodel."


DENSE = ("object_", "complex128", "float64")


def is_number(x):
    return is_num(x) or isinstance(x, bool) or isinstance(x, Term) and (x.op in ("poly", "imag", "sqrt", "exp", "cos", "sin", "pow", "inv", "abs", "amp", "conj", "norm") or x.typ in (("prim", "float"), ("prim", "int"), ("prim", "complex")) or x.op == "var")


def product_of(x, y):
    return pmul(x, y) if isinstance(x, (Term, Fraction)) or isinstance(y, (Term, Fraction)) else x * y


def total(xs):
    xs = list(xs)
    if all(isinstance(x, (bool, int)) for x in xs):
        return sum(xs)
    d = {}
    for x in xs:
        for m, c in to_poly(x).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def conj(x):
    """Complex conjugate of a number."""
    if is_num(x) or isinstance(x, bool):
        return x
    out = []
    for mono, c in to_poly(x).items():
        t = c
        for a, p in mono:
            t = pmul(t, from_poly({((_conj_atom(a), p),): Fraction(1)}))
            if a == IMAG and p % 2:
                t = pmul(t, -1)
        out.append(t)
    return total(out)


def _conj_atom(a):
    if not isinstance(a, Term):
        if isinstance(a, Ext) and a.name.endswith(".pi"):
            return a
        raise AnalysisError(f"conjugate of {a}")
    if a.op == "conj":
        return a.args[0]
    if a.op not in ("sqrt", "imag", "abs", "cos", "sin", "norm") and (a.op == "amp" or a.typ == ("prim", "complex")):
        return Term("conj", a, typ=("prim", "complex"))
    if a.op in ("imag", "sqrt", "abs", "cos", "sin", "norm") or a.typ in (("prim", "float"), ("prim", "int")):
        return a
    if a.op in ("inv", "exp"):
        return Term(a.op, conj(a.args[0]))
    if a.op in ("var", "attr", "pi"):
        return a
    raise AnalysisError(f"conjugate of {a.op}")


def real(x):
    return pmul(total([x, conj(x)]), Fraction(1, 2))


def imag(x):
    return pmul(padd(x, conj(x), -1), pmul(IMAG, Fraction(-1, 2)))


def approx(x):
    """Floating-point value of a number without unknowns, or None."""
    if is_num(x) or isinstance(x, bool):
        return complex(x)
    if not isinstance(x, Term):
        return None
    if x.op == "imag":
        return 1j
    if x.op in ("sqrt", "inv"):
        v = approx(x.args[0])
        if v is None or x.op == "inv" and v == 0:
            return None
        return v**0.5 if x.op == "sqrt" else 1 / v
    if x.op != "poly":
        return None
    r = 0
    for mono, c in to_poly(x).items():
        t = complex(c)
        for a, k in mono:
            v = approx(a) if isinstance(a, Term) else None
            if v is None or k < 0 and v == 0:
                return None
            t *= v**k
        r += t
    return r


def compiled(f):
    """Whether a function is compiled by numba, and with which options."""
    for d in getattr(f.node, "decorator_list", ()):
        c = d.func if isinstance(d, ast.Call) else d
        if ast.unparse(c).split(".")[-1] in ("njit", "jit"):
            return {"_": True, **{k.arg: getattr(k.value, "value", None) for k in (d.keywords if isinstance(d, ast.Call) else ()) if k.arg}}
    return None


def is_arr(v):
    return isinstance(v, Inst) and "_buf" in v.fields


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


class Arrays:
    """Operations on array values of one interpreter."""

    def __init__(self, I):
        self.I = I
        self.base = I.prog.classes["npmodel.ndarray"]

    # ---- footprints of the iterations of parallel loops
    def touch(self, what, buf, pos):
        t = self.I.footprint
        if t is not None and id(buf) not in t["own"]:
            t[what].update((id(buf), p) for p in pos)

    def out_of_bounds(self):
        """Indexing outside an array: compiled code does not check."""
        f = self.I.stack[-1].func if self.I.stack else None
        raise Raise_("OutOfBounds" if f is not None and compiled(f) else "IndexError", (), None, True)

    # ---- representation
    def make(self, data, shape, kind, cls=None):
        buf = self.I.mklist(list(data))
        if self.I.footprint is not None:
            self.I.footprint["own"][id(buf)] = buf
        return self.wrap(buf, tuple(range(len(data))), tuple(shape), kind, cls)

    def wrap(self, buf, pos, shape, kind, cls=None):
        return self.I.new(Inst(cls or self.base, {"_buf": buf, "_pos": pos, "_shape": shape, "_kind": kind}))

    def parts(self, a):
        f = a.fields
        return f["_buf"], f["_pos"], f["_shape"], f["_kind"]

    def values(self, a):
        buf, pos, _, _ = self.parts(a)
        self.touch("read", buf, pos)
        return [buf.items[p] for p in pos]

    def arr(self, v, kind=None, cls=None):
        """An array with the contents of a value (the value itself when it is one)."""
        v = self.I.rd(v)
        if is_arr(v):
            return v
        shape, flat = self.nested(v)
        plain = all(isinstance(x, (bool, int)) for x in flat)
        if not plain and any(isinstance(x, Inst) for x in flat):
            if kind not in (None, "object_"):
                raise Raise_("TypeError", ("not a number",), None, True)
            kind = "object_"
        elif not plain and kind != "object_":
            for x in flat:
                if not is_number(x):
                    raise AnalysisError(f"array of {str(x)[:80]}")
        if kind is None:
            kind = "complex128" if not plain else "bool" if flat and all(isinstance(x, bool) for x in flat) else "int64" if flat else "float64"
        return self.make([self.cast(x, kind) for x in flat], shape, kind, cls)

    def nested(self, v):
        v = self.I.rd(v)
        if is_arr(v):
            return v.fields["_shape"], self.values(v)
        if isinstance(v, (tuple, ListV)) or not isinstance(v, (bool, int, float, Term)) and not is_num(v) and not (isinstance(v, Inst) and not v.cls.find_method("__iter__") and not v.cls.find_method("__getitem__")):
            its = [self.I.rd(x) for x in self.I.as_items(v)]
            if any(isinstance(x, Splat) for x in its):
                raise AnalysisError("array of unknown length")
            if not its:
                return (0,), []
            subs = [self.nested(x) for x in its]
            if len({s for s, _ in subs}) != 1:
                raise Raise_("ValueError", ("inhomogeneous shape",), None, True)
            return (len(its), *subs[0][0]), [x for _, fl in subs for x in fl]
        return (), [v]

    @staticmethod
    def cast(x, kind):
        if kind == "bool" and isinstance(x, Term):
            return x
        if kind == "bool":
            return bool(x)
        if kind in DENSE:
            return int(x) if isinstance(x, bool) else x
        if not isinstance(x, (bool, int)):
            raise AnalysisError(f"{str(x)[:80]} in an array of integers")
        x = int(x)
        return x & 255 if kind == "uint8" else x

    def kind_of(self, dtype, default="float64"):
        dtype = self.I.rd(dtype)
        if dtype is None:
            return default
        if isinstance(dtype, str):
            n = dtype
        elif isinstance(dtype, Ext):
            n = dtype.name.rsplit(".", 1)[-1]
        else:
            raise AnalysisError(f"dtype {dtype}")
        n = {"object": "object_", "complex": "complex128", "float": "float64", "double": "float64", "cdouble": "complex128", "complex_": "complex128", "bool_": "bool", "int": "int64", "int_": "int64", "intp": "int64", "int8": "int64", "int32": "int64"}.get(n, n)
        if n not in ("bool", "int64", "uint8", *DENSE):
            raise AnalysisError(f"array of type {n}")
        return n

    def scalar_or(self, data, shape, kind, cls):
        if not shape:
            return data[0]
        return self.make(data, shape, kind, cls)

    # ---- indexing
    def locate(self, a, key):
        """(positions, shape, view) of an index."""
        _, pos, shape, _ = self.parts(a)
        key = self.I.rd(key)
        key = tuple(self.I.rd(k) for k in key) if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis or isinstance(k, Term) or k is None for k in key) or len(key) > len(shape):
            if any(isinstance(k, Term) for k in key) or len(key) <= len(shape):
                raise AnalysisError("array index")
            raise Raise_("IndexError", (), None, True)
        if len(key) == 1 and is_arr(key[0]) and key[0].fields["_kind"] == "bool" and len(key[0].fields["_shape"]) == len(shape) and len(shape) > 1:
            pick = [p for p, b in zip(pos, self.values(key[0]), strict=True) if b]
            return pick, (len(pick),), False
        axes, fancy, view = [], [], True
        for d, n in enumerate(shape):
            k = key[d] if d < len(key) else slice(None)
            if isinstance(k, slice):
                k = slice(*(self.index(x) for x in (k.start, k.stop, k.step)))
                axes.append((list(range(n))[k], True))
            elif isinstance(k, (int, bool)):
                if not -n <= k < n:
                    self.out_of_bounds()
                axes.append(([int(k) % n], False))
            else:
                arr = self.arr(k)
                v = self.values(arr)
                if len(arr.fields["_shape"]) != 1:
                    raise AnalysisError("index by an array of several dimensions")
                if v and arr.fields["_kind"] == "bool":
                    if len(v) != n:
                        raise Raise_("IndexError", (), None, True)
                    v = [i for i, b in enumerate(v) if b]
                if any(not -n <= x < n for x in v):
                    raise Raise_("IndexError", (), None, True)
                axes.append(([x % n for x in v], True))
                fancy.append(d)
                view = False
        if len(fancy) > 1:
            if len(fancy) != len(shape) or len({len(axes[d][0]) for d in fancy}) != 1:
                raise AnalysisError("index by several arrays")
            pick = [pos[self.flat(ix, shape)] for ix in zip(*(axes[d][0] for d in fancy), strict=True)]
            return pick, (len(pick),), False
        pick = [pos[self.flat(ix, shape)] for ix in product(*(ax for ax, _ in axes))]
        return pick, tuple(len(ax) for ax, keep in axes if keep), view

    def index(self, x):
        x = self.I.rd(x)
        if x is None or isinstance(x, int):
            return x
        raise AnalysisError("array slice")

    @staticmethod
    def flat(ix, shape):
        r = 0
        for i, n in zip(ix, shape, strict=True):
            r = r * n + i
        return r

    def get(self, a, key):
        buf, _, _, kind = self.parts(a)
        pick, shape, view = self.locate(a, key)
        if not shape or not view:
            self.touch("read", buf, pick)
        if not shape:
            return buf.items[pick[0]]
        if view:
            return self.wrap(buf, tuple(pick), shape, kind, a.cls)
        return self.make([buf.items[p] for p in pick], shape, kind, a.cls)

    def set(self, a, key, value):
        buf, _, _, kind = self.parts(a)
        pick, shape, _ = self.locate(a, key)
        vals = self.broadcast(self.arr(value), shape, True)
        self.touch("write", buf, pick)
        for p, v in zip(pick, vals, strict=True):
            buf.items[p] = self.cast(v, kind)

    def broadcast(self, a, shape, assign=False):
        _, _, sh, _ = self.parts(a)
        v = self.values(a)
        if assign:
            while len(sh) > len(shape) and sh[0] == 1:
                sh = sh[1:]
        if sh == shape:
            return v
        pad = (1,) * (len(shape) - len(sh)) + sh
        if len(pad) != len(shape) or any(x not in (1, y) for x, y in zip(pad, shape, strict=True)):
            raise Raise_("ValueError", ("could not broadcast",), None, True)
        return [v[self.flat(tuple(0 if n == 1 else i for i, n in zip(ix, pad, strict=True)), pad)] for ix in product(*map(range, shape))]

    # ---- arithmetic
    def both(self, a, b):
        a, b = self.I.rd(a), self.I.rd(b)
        scalar = [not is_arr(x) for x in (a, b)]
        x, y = self.arr(a), self.arr(b)
        sx, sy = x.fields["_shape"], y.fields["_shape"]
        n = max(len(sx), len(sy))
        px, py = (1,) * (n - len(sx)) + sx, (1,) * (n - len(sy)) + sy
        shape = tuple(q if p == 1 else p for p, q in zip(px, py, strict=True))
        kinds = [z.fields["_kind"] for z, s in zip((x, y), scalar, strict=True) if not s]
        if len(kinds) == 1 and kinds[0] == "bool" and not all(isinstance(v, bool) for v in self.values(x) + self.values(y)):
            kinds = ["int64"]
        kind = next((k for k in (*DENSE, "int64", "uint8", "bool") if k in kinds), "int64")
        cls = next((z.cls for z in (a, b) if is_arr(z) and z.cls is not self.base), self.base)
        return self.broadcast(x, shape), self.broadcast(y, shape), shape, kind, cls

    def zip2(self, op, a, b, kind=None):
        x, y, shape, k, cls = self.both(a, b)
        if kind is None and k not in DENSE and not all(isinstance(v, (bool, int)) for v in (*x, *y)):
            k = "complex128"
        k = kind or k
        return self.scalar_or([self.cast(op(p, q), k) for p, q in zip(x, y, strict=True)], shape, k, cls)

    def inplace(self, op, a, b):
        buf, pos, shape, kind = self.parts(a)
        vals = self.broadcast(self.arr(b), shape)
        new = [self.cast(op(buf.items[p], v), kind) for p, v in zip(pos, vals, strict=True)]
        self.touch("read", buf, pos)
        self.touch("write", buf, pos)
        for p, v in zip(pos, new, strict=True):
            buf.items[p] = v
        return a

    def reduce(self, f, a, axis, kind):
        a = self.arr(a)
        v, shape = self.values(a), a.fields["_shape"]
        if axis is None:
            return f(v)
        if axis < 0:
            axis += len(shape)
        if not 0 <= axis < len(shape):
            raise Raise_("AxisError", (), None, True)
        rest = shape[:axis] + shape[axis + 1 :]
        out = [f([v[self.flat((*ix[:axis], i, *ix[axis:]), shape)] for i in range(shape[axis])]) for ix in product(*map(range, rest))]
        return self.scalar_or(out, rest, kind, a.cls)

    def matmul(self, a, b):
        a, b = self.arr(a), self.arr(b)
        sa, sb = a.fields["_shape"], b.fields["_shape"]
        if len(sa) == 1 and len(sb) == 1 and sa == sb:
            return total(product_of(x, y) for x, y in zip(self.values(a), self.values(b), strict=True))
        if len(sa) != 2 or len(sb) not in (1, 2) or sa[1] != sb[0]:
            if len(sa) == 2 and len(sb) == 2:
                raise Raise_("ValueError", ("matmul",), None, True)
            raise AnalysisError("matmul")
        va, vb = self.values(a), self.values(b)
        n = sb[1] if len(sb) == 2 else 1
        kinds = {a.fields["_kind"], b.fields["_kind"]}
        kind = next(iter(kinds)) if len(kinds) == 1 else next((k for k in DENSE if k in kinds), "int64")
        out = [self.cast(total(product_of(va[i * sa[1] + k], vb[k * n + j]) for k in range(sa[1])), kind) for i in range(sa[0]) for j in range(n)]
        return self.make(out, (sa[0], n) if len(sb) == 2 else (sa[0],), kind, a.cls)

    def transposed(self, a):
        buf, pos, shape, kind = self.parts(a)
        if len(shape) < 2:
            return self.wrap(buf, pos, shape, kind, a.cls)
        return self.permuted(a, tuple(reversed(range(len(shape)))))

    def permuted(self, a, axes):
        """View of an array with its axes in another order."""
        buf, pos, shape, kind = self.parts(a)
        n = len(shape)
        if any(not -n <= x < n for x in axes) or sorted(x % n for x in axes) != list(range(n)):
            raise Raise_("ValueError", ("axes don't match array",), None, True)
        axes = [x % n for x in axes]
        new = tuple(shape[x] for x in axes)
        out = []
        for ix in product(*map(range, new)):
            old = [0] * n
            for x, i in zip(axes, ix, strict=True):
                old[x] = i
            out.append(pos[self.flat(old, shape)])
        return self.wrap(buf, tuple(out), new, kind, a.cls)

    def axes_of(self, x, n):
        """Axis numbers given as a number or as a sequence."""
        x = self.I.rd(x)
        its = [x] if isinstance(x, int) else self.values(x) if is_arr(x) else [self.I.rd(y) for y in self.I.as_items(x)]
        if any(not isinstance(y, int) for y in its):
            raise AnalysisError("axes of an array")
        if any(not -n <= y < n for y in its):
            raise Raise_("AxisError", (), None, True)
        its = [y % n for y in its]
        if len(set(its)) != len(its):
            raise Raise_("ValueError", ("repeated axis",), None, True)
        return its

    def moved(self, a, src, dst):
        a = self.arr(a)
        n = len(a.fields["_shape"])
        s, d = self.axes_of(src, n), self.axes_of(dst, n)
        if len(s) != len(d):
            raise Raise_("ValueError", ("`source` and `destination` arguments must have the same number of elements",), None, True)
        order = [x for x in range(n) if x not in s]
        for q, p in sorted(zip(d, s, strict=True)):
            order.insert(q, p)
        return self.permuted(a, order)

    def contracted(self, a, b, axes):
        """tensordot."""
        a, b = self.arr(a), self.arr(b)
        sa, sb = a.fields["_shape"], b.fields["_shape"]
        axes = self.I.rd(axes)
        if isinstance(axes, int):
            xa, xb = list(range(len(sa) - axes, len(sa))), list(range(axes))
        else:
            p, q = self.I.as_items(axes)
            xa, xb = self.axes_of(p, len(sa)), self.axes_of(q, len(sb))
        if len(xa) != len(xb) or any(sa[p] != sb[q] for p, q in zip(xa, xb, strict=True)):
            raise Raise_("ValueError", ("shape-mismatch for sum",), None, True)
        la, lb = list(range(len(sa))), list(range(len(sa), len(sa) + len(sb)))
        for p, q in zip(xa, xb, strict=True):
            lb[q] = la[p]
        return self.summed([(a, la), (b, lb)], [x for x in la if x not in [la[p] for p in xa]] + [x for i, x in enumerate(lb) if i not in xb])

    def summed(self, ops, out):
        """Sum over the labels which are not in `out` of the products of the operands (einsum)."""
        dims = {}
        for a, lab in ops:
            sh = a.fields["_shape"]
            if len(sh) != len(lab):
                raise Raise_("ValueError", ("operand has another number of dimensions",), None, True)
            for x, n in zip(lab, sh, strict=True):
                if dims.setdefault(x, n) != n:
                    raise Raise_("ValueError", ("dimensions do not match",), None, True)
        if any(x not in dims for x in out) or len(set(out)) != len(out):
            raise Raise_("ValueError", ("output subscripts",), None, True)
        rest = [x for x in dims if x not in out]
        vals = [self.values(a) for a, _ in ops]
        res = []
        for ix in product(*(range(dims[x]) for x in out)):
            e = dict(zip(out, ix, strict=True))
            terms = []
            for jx in product(*(range(dims[x]) for x in rest)):
                e.update(zip(rest, jx, strict=True))
                t = 1
                for (a, lab), v in zip(ops, vals, strict=True):
                    y = v[self.flat([e[x] for x in lab], a.fields["_shape"])]
                    if y == 0:
                        t = 0
                        break
                    t = y if t == 1 and not isinstance(t, Term) else product_of(t, y)
                if not (is_num(t) and t == 0):
                    terms.append(t)
            res.append(total(terms))
        kinds = [a.fields["_kind"] for a, _ in ops]
        kind = next((k for k in (*DENSE, "int64", "uint8", "bool") if k in kinds), "int64")
        return self.scalar_or(res, tuple(dims[x] for x in out), kind, self.base)

    def einsum(self, args):
        args = [self.I.rd(x) for x in args]
        if args and isinstance(args[0], str):
            spec = args[0].replace(" ", "")
            if "." in spec:
                raise AnalysisError("einsum with an ellipsis")
            ins, arrow, out = spec.partition("->")
            labs = [list(x) for x in ins.split(",")]
            ops = [(self.arr(a), lab) for a, lab in zip(args[1:], labs, strict=True)]
            flat = [x for lab in labs for x in lab]
            return self.summed(ops, list(out) if arrow else sorted(x for x in flat if flat.count(x) == 1))
        n = len(args) // 2
        ops = [(self.arr(args[2 * i]), self.labels(args[2 * i + 1])) for i in range(n)]
        flat = [x for _, lab in ops for x in lab]
        return self.summed(ops, self.labels(args[-1]) if len(args) % 2 else sorted(x for x in flat if flat.count(x) == 1))

    def labels(self, x):
        x = self.I.rd(x)
        its = self.values(x) if is_arr(x) else [self.I.rd(y) for y in self.I.as_items(x)]
        if any(not isinstance(y, int) for y in its):
            raise AnalysisError("einsum labels")
        if any(not 0 <= y < 52 for y in its):
            raise Raise_("ValueError", ("subscript is not within the valid range",), None, True)
        return its

    def labels_any(self, x):
        x = self.I.rd(x)
        its = self.values(x) if is_arr(x) else [self.I.rd(y) for y in self.I.as_items(x)]
        if any(not isinstance(y, int) for y in its):
            raise AnalysisError("axes of an array")
        return its

    def kron(self, a, b):
        a, b = self.arr(a), self.arr(b)
        sa, sb = a.fields["_shape"], b.fields["_shape"]
        n = max(len(sa), len(sb))
        sa, sb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
        va, vb = self.values(a), self.values(b)
        shape = tuple(p * q for p, q in zip(sa, sb, strict=True))
        out = []
        for ix in product(*map(range, shape)):
            out.append(product_of(va[self.flat([i // q for i, q in zip(ix, sb, strict=True)], sa)], vb[self.flat([i % q for i, q in zip(ix, sb, strict=True)], sb)]))
        kinds = [x.fields["_kind"] for x in (a, b)]
        kind = next((k for k in (*DENSE, "int64", "uint8", "bool") if k in kinds), "int64")
        return self.make(out, shape, kind, self.base)

    def conj(self, a):
        if not is_arr(self.I.rd(a)):
            return conj(self.I.rd(a))
        a = self.arr(a)
        return self.make([conj(x) for x in self.values(a)], a.fields["_shape"], a.fields["_kind"], a.cls)

    def trace(self, a):
        a = self.arr(a)
        sh = a.fields["_shape"]
        if len(sh) != 2:
            raise AnalysisError("trace of a tensor")
        v = self.values(a)
        return total(v[i * sh[1] + i] for i in range(min(sh)))

    def contiguous(self, a):
        _, pos, _, _ = self.parts(a)
        return all(q == p + 1 for p, q in zip(pos, pos[1:], strict=False))

    def copied(self, a, cls=None):
        return self.make(self.values(a), a.fields["_shape"], a.fields["_kind"], cls or a.cls)

    def join(self, arrays, axis):
        its = [self.arr(x) for x in self.I.as_items(arrays)]
        if not its:
            raise Raise_("ValueError", ("need at least one array",), None, True)
        shapes = [x.fields["_shape"] for x in its]
        nd = len(shapes[0])
        if axis < 0:
            axis += nd
        if any(len(s) != nd for s in shapes) or any(s[d] != shapes[0][d] for s in shapes for d in range(nd) if d != axis):
            raise Raise_("ValueError", ("all the input array dimensions must match",), None, True)
        kinds = {x.fields["_kind"] for x in its if size(x.fields["_shape"]) or x.fields["_kind"] != "float64"}
        kind = next((k for k in (*DENSE, "int64", "uint8", "bool") if k in kinds), "float64")
        cls = next((x.cls for x in its if x.cls is not self.base), self.base)
        shape = tuple(sum(s[d] for s in shapes) if d == axis else n for d, n in enumerate(shapes[0]))
        vals = [self.values(x) for x in its]
        out = []
        for ix in product(*map(range, shape)):
            i = ix[axis]
            for s, v in zip(shapes, vals, strict=True):
                if i < s[axis]:
                    out.append(v[self.flat((*ix[:axis], i, *ix[axis + 1 :]), s)])
                    break
                i -= s[axis]
        return self.make([self.cast(x, kind) for x in out], shape, kind, cls)

    def stacked(self, arrays):
        """vstack: one-dimensional arrays are rows."""
        its = []
        for x in self.I.as_items(arrays):
            x = self.arr(x)
            sh = x.fields["_shape"]
            its.append(x if len(sh) > 1 else self.make(self.values(x), (1, size(sh)), x.fields["_kind"], x.cls))
        return self.join(tuple(its), 0)

    def listed(self, a):
        v, shape = self.values(a), a.fields["_shape"]

        def go(lo, sh):
            if not sh:
                return v[lo]
            step = size(sh[1:])
            return self.I.mklist([go(lo + i * step, sh[1:]) for i in range(sh[0])])

        return go(0, shape)

    def shape_of(self, s):
        s = self.I.rd(s)
        if isinstance(s, int):
            return (s,)
        return tuple(self.number(x) for x in self.I.as_items(s))

    def number(self, x):
        x = self.I.rd(x)
        if not isinstance(x, int):
            raise AnalysisError(f"array size {x}")
        if x < 0:
            raise Raise_("ValueError", ("negative dimensions are not allowed",), None, True)
        return x


OPS = {
    "xor": lambda a, b: a ^ b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "add": lambda a, b: a + b if not (a is True or b is True) or not isinstance(a, bool) or not isinstance(b, bool) else a or b,
    "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "mod": lambda a, b: a % b,
}
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


AST = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "mod": ast.Mod, "truediv": ast.Div, "pow": ast.Pow, "xor": ast.BitXor, "and": ast.BitAnd, "or": ast.BitOr}


def hooks(I):
    A = Arrays(I)
    H = {}
    N = M + "ndarray."

    def scalar(name):
        py = OPS.get(name)

        def f(a, b):
            if py and isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return py(a, b)
            return I.binop(AST[name](), a, b)

        return f

    def compare(py):
        def f(a, b):
            if isinstance(a, Term) or isinstance(b, Term):
                if a == b and not isinstance(a, bool):
                    return py(0, 0)
                raise AnalysisError("comparison of unknown array elements")
            return py(a, b)

        return f

    def one(name, f):
        H[name] = lambda interp, b, node, f=f: f(b)

    def meth(name, f):
        one(N + name, f)

    for n in AST:
        op = scalar(n)
        meth(f"__{n}__", lambda b, op=op: A.zip2(op, b["self"], b["other"]))
        meth(f"__r{n}__", lambda b, op=op: A.zip2(op, b["other"], b["self"]))
        meth(f"__i{n}__", lambda b, op=op: A.inplace(op, b["self"], b["other"]))
    for n, op in CMP.items():
        meth(f"__{n}__", lambda b, op=op: A.zip2(compare(op), b["self"], b["other"], "bool"))

    def axis(b):
        return I.rd(b.get("axis"))

    def summed_kind(a):
        k = A.arr(a).fields["_kind"]
        return k if k in DENSE else "int64"

    def the_bool(b):
        v = A.values(b["self"])
        if len(v) != 1:
            raise Raise_("ValueError", ("truth value of an array",), None, True)
        return bool(v[0])

    def new(b):
        buf = I.rd(b.get("buffer"))
        if not is_arr(buf):
            raise AnalysisError("array without a known buffer")
        c = I.rd(b["cls"])
        bb, pos, _, kind = A.parts(buf)
        if A.shape_of(b["shape"]) != buf.fields["_shape"]:
            raise AnalysisError("buffer of another shape")
        return A.wrap(bb, pos, buf.fields["_shape"], kind, c)

    def transpose(b):
        axes = I.rd(b.get("axes"))
        if axes is None or axes == ():
            return A.transposed(b["self"])
        its = [I.rd(x) for x in I.as_items(axes)]
        if len(its) == 1 and not isinstance(its[0], int):
            return A.transposed(b["self"]) if its[0] is None else A.permuted(b["self"], A.labels_any(its[0]))
        return A.permuted(b["self"], its)

    def np_transpose(b):
        a = A.arr(b["a"])
        return A.transposed(a) if I.rd(b.get("axes")) is None else A.permuted(a, A.labels_any(b["axes"]))

    def swapaxes(a, i, j):
        a = A.arr(a)
        o = list(range(len(a.fields["_shape"])))
        i, j = I.rd(i), I.rd(j)
        o[i], o[j] = o[j], o[i]
        return A.permuted(a, o)

    def view(b):
        a, t = b["self"], I.rd(b.get("type"))
        buf, pos, shape, kind = A.parts(a)
        if t is None:
            t = a.cls
        if not hasattr(t, "methods"):
            raise AnalysisError("view as another type")
        return A.wrap(buf, pos, shape, kind, t)

    def astype(b):
        a = b["self"]
        k = A.kind_of(b["dtype"])
        c = I.rd(b.get("copy", True))
        if k == a.fields["_kind"] and c is False:
            return a
        return A.make([A.cast(x, k) for x in A.values(a)], a.fields["_shape"], k, a.cls)

    def contig(b):
        a = A.arr(b["a"])
        if A.contiguous(a):
            return A.wrap(*A.parts(a), None) if a.cls is not A.base else a
        return A.copied(a, A.base)

    def array(b):
        v = I.rd(b["object"])
        k = A.kind_of(b.get("dtype"), None)
        c = I.rd(b.get("copy", True))
        if is_arr(v):
            k = k or v.fields["_kind"]
            if c is False and k != v.fields["_kind"]:
                raise Raise_("ValueError", ("Unable to avoid copy",), None, True)
            if c is False or c is None and k == v.fields["_kind"]:
                return A.wrap(*A.parts(v), None)
            # a copy keeps the memory layout, rows first or columns first
            a = A.make([A.cast(x, k) for x in A.values(v)], v.fields["_shape"], k, A.base)
            t = A.transposed(v) if len(v.fields["_shape"]) == 2 else None
            if t is not None and not A.contiguous(v) and A.contiguous(t):
                a = A.transposed(A.make([A.cast(x, k) for x in A.values(t)], t.fields["_shape"], k, A.base))
            return a
        return A.arr(v, k)

    def filled(x):
        def f(b):
            s = A.shape_of(b["shape"])
            k = A.kind_of(b.get("dtype"))
            if x == "junk":
                n = I.prog.__dict__.setdefault("_junk", [0])
                n[0] += 1
                return A.make([Term("amp", f"junk{n[0]}", i, typ=("prim", "complex")) if k in DENSE else 0 for i in range(size(s))], s, k)
            return A.make([A.cast(b["fill_value"] if x is None else x, k)] * size(s), s, k)

        return f

    def like(x):
        def f(b):
            a = A.arr(b["a"])
            k = A.kind_of(b.get("dtype"), a.fields["_kind"])
            return A.make([A.cast(x, k)] * size(a.fields["_shape"]), a.fields["_shape"], k, a.cls)

        return f

    def eye(b):
        n = A.number(b.get("N", b.get("n")))
        m = n if I.rd(b.get("M")) is None else A.number(b["M"])
        k = A.kind_of(b.get("dtype"))
        d = I.rd(b.get("k", 0))
        return A.make([A.cast(j == i + d, k) for i in range(n) for j in range(m)], (n, m), k)

    def flatnonzero(b):
        v = A.values(A.arr(b["a"]))
        out = [i for i, x in enumerate(v) if x]
        return A.make(out, (len(out),), "int64")

    def nonzero(a):
        a = A.arr(a)
        ixs = [ix for ix, x in zip(product(*map(range, a.fields["_shape"])), A.values(a), strict=True) if x]
        return tuple(A.make([ix[d] for ix in ixs], (len(ixs),), "int64") for d in range(len(a.fields["_shape"])))

    def where(b):
        if I.rd(b.get("x")) is None:
            return nonzero(b["condition"])
        c = A.arr(b["condition"])
        sh = c.fields["_shape"]
        x, y = A.broadcast(A.arr(b["x"]), sh), A.broadcast(A.arr(b["y"]), sh)
        return A.make([p if q else r for p, q, r in zip(x, A.values(c), y, strict=True)], sh, A.arr(b["x"]).fields["_kind"])

    def argmax(v):
        if not v:
            raise Raise_("ValueError", ("attempt to get argmax of an empty sequence",), None, True)
        return v.index(max(v))

    def maximum(v):
        if not v:
            raise Raise_("ValueError", ("zero-size array",), None, True)
        return max(v)

    def reshape(b):
        a = b["self"]
        s = I.rd(b["shape"])
        s = A_shape = tuple(I.rd(x) for x in (I.as_items(s[0]) if isinstance(s, tuple) and len(s) == 1 and not isinstance(I.rd(s[0]), int) else I.as_items(s)))
        n = size(a.fields["_shape"])
        if -1 in s:
            k = size([x for x in s if x != -1])
            A_shape = tuple(n // k if x == -1 else x for x in s)
        if size(A_shape) != n:
            raise Raise_("ValueError", ("cannot reshape",), None, True)
        buf, pos, _, kind = A.parts(a)
        return A.wrap(buf, pos, A_shape, kind, a.cls) if A.contiguous(a) else A.make(A.values(a), A_shape, kind, a.cls)

    def arange(b):
        lo, hi, st = I.rd(b["start"]), I.rd(b.get("stop")), I.rd(b.get("step", 1))
        r = list(range(lo) if hi is None else range(lo, hi, st))
        return A.make(r, (len(r),), "int64")

    def equal(b):
        x, y = A.arr(b["a1"]), A.arr(b["a2"])
        return x.fields["_shape"] == y.fields["_shape"] and A.values(x) == A.values(y)

    def searchsorted(b):
        v = A.values(A.arr(b["a"]))
        x = I.rd(b["v"])
        return sum(y < x or y == x and I.rd(b.get("side", "left")) == "right" for y in v)

    def vectorized(b):
        vals, shape, otypes = [I.rd(x) for x in I.as_items(b["results"])], I.rd(b["shape"]), I.rd(b["otypes"])
        if otypes is not None:
            kind = A.kind_of(otypes[0] if isinstance(otypes, str) else I.as_items(otypes)[0])
        elif isinstance(vals[0], Inst):
            kind = "object_"
        elif is_num(vals[0]) and vals[0] != int(vals[0]):
            kind = "float64"
        elif isinstance(vals[0], Term) and imag(vals[0]) != 0:
            kind = "complex128"
        else:
            raise AnalysisError(f"the type of an array whose first element is {vals[0]}")
        for x in vals:
            if kind != "object_" and isinstance(x, Inst) or kind == "float64" and isinstance(x, Term) and imag(x) != 0:
                raise Raise_("TypeError", ("an element does not have the type of the first one",), None, True)
        return A.make([A.cast(x, kind) for x in vals], shape, kind)

    one(M + "_vectorized", vectorized)
    meth("__new__", new)
    meth("__getitem__", lambda b: A.get(b["self"], b["key"]))
    meth("__setitem__", lambda b: A.set(b["self"], b["key"], b["value"]))
    meth("__len__", lambda b: b["self"].fields["_shape"][0])
    meth("__bool__", the_bool)
    meth("__int__", lambda b: int(A.values(b["self"])[0]))
    meth("__iter__", lambda b: I.mklist([A.get(b["self"], i) for i in range(b["self"].fields["_shape"][0])]))
    meth("__contains__", lambda b: I.rd(b["x"]) in A.values(b["self"]))
    meth("__matmul__", lambda b: A.matmul(b["self"], b["other"]))
    meth("__invert__", lambda b: A.make([(not x) if b["self"].fields["_kind"] == "bool" else A.cast(~x, b["self"].fields["_kind"]) for x in A.values(b["self"])], b["self"].fields["_shape"], b["self"].fields["_kind"], b["self"].cls))
    meth("shape", lambda b: b["self"].fields["_shape"])
    meth("ndim", lambda b: len(b["self"].fields["_shape"]))
    meth("size", lambda b: size(b["self"].fields["_shape"]))
    meth("dtype", lambda b: Ext("numpy." + b["self"].fields["_kind"]))
    meth("conj", lambda b: A.conj(b["self"]))
    meth("conjugate", lambda b: A.conj(b["self"]))
    meth("trace", lambda b: A.trace(b["self"]))
    meth("real", lambda b: A.make([real(x) for x in A.values(b["self"])], b["self"].fields["_shape"], "float64"))
    meth("imag", lambda b: A.make([imag(x) for x in A.values(b["self"])], b["self"].fields["_shape"], "float64"))
    one(M + "conj", lambda b: A.conj(b["x"]))
    one(M + "conjugate", lambda b: A.conj(b["x"]))
    one(M + "trace", lambda b: A.trace(b["a"]))
    one(M + "tensordot", lambda b: A.contracted(b["a"], b["b"], b["axes"]))
    one(M + "moveaxis", lambda b: A.moved(b["a"], b["source"], b["destination"]))
    one(M + "einsum", lambda b: A.einsum(I.as_items(b["args"])))
    one(M + "kron", lambda b: A.kron(b["a"], b["b"]))
    one(M + "outer", lambda b: A.kron(A.make(A.values(A.arr(b["a"])), (len(A.values(A.arr(b["a"]))), 1), A.arr(b["a"]).fields["_kind"]), A.make(A.values(A.arr(b["b"])), (1, len(A.values(A.arr(b["b"])))), A.arr(b["b"]).fields["_kind"])))
    one(M + "vdot", lambda b: total(product_of(conj(x), y) for x, y in zip(A.values(A.arr(b["a"])), A.values(A.arr(b["b"])), strict=True)))
    one(M + "swapaxes", lambda b: swapaxes(b["a"], b["axis1"], b["axis2"]))
    meth("swapaxes", lambda b: swapaxes(b["self"], b["axis1"], b["axis2"]))
    meth("strides", lambda b: None)
    meth("data", lambda b: A.wrap(*A.parts(b["self"]), None))
    meth("T", transpose)
    meth("transpose", transpose)
    meth("any", lambda b: A.reduce(lambda v: any(v), b["self"], axis(b), "bool"))
    meth("all", lambda b: A.reduce(lambda v: all(v), b["self"], axis(b), "bool"))
    meth("sum", lambda b: A.reduce(total, b["self"], axis(b), summed_kind(b["self"])))
    meth("max", lambda b: A.reduce(maximum, b["self"], axis(b), b["self"].fields["_kind"]))
    meth("argmax", lambda b: A.reduce(argmax, b["self"], axis(b), "int64"))
    meth("copy", lambda b: A.copied(b["self"]))
    meth("view", view)
    meth("astype", astype)
    meth("tolist", lambda b: A.listed(b["self"]))
    meth("item", lambda b: A.values(b["self"])[0])
    meth("flatten", lambda b: A.make(A.values(b["self"]), (size(b["self"].fields["_shape"]),), b["self"].fields["_kind"], b["self"].cls))
    meth("ravel", lambda b: A.make(A.values(b["self"]), (size(b["self"].fields["_shape"]),), b["self"].fields["_kind"], b["self"].cls))
    meth("reshape", reshape)
    meth("nonzero", lambda b: nonzero(b["self"]))
    meth("fill", lambda b: [b["self"].fields["_buf"].items.__setitem__(p, A.cast(I.rd(b["value"]), b["self"].fields["_kind"])) for p in b["self"].fields["_pos"]] and None)
    for n, f in (
        ("array", array), ("asarray", lambda b: A.arr(b["a"], A.kind_of(b.get("dtype"), None))), ("ascontiguousarray", contig), ("zeros", filled(0)), ("empty", filled("junk")), ("ones", filled(1)), ("full", filled(None)),
        ("zeros_like", like(0)), ("ones_like", like(1)), ("eye", eye), ("identity", eye), ("arange", arange), ("concatenate", lambda b: A.join(b["arrays"], axis(b))),
        ("hstack", lambda b: A.join(b["tup"], 0 if all(len(A.arr(x).fields["_shape"]) == 1 for x in I.as_items(b["tup"])) else 1)), ("vstack", lambda b: A.stacked(b["tup"])),
        ("flatnonzero", flatnonzero), ("nonzero", lambda b: nonzero(b["a"])), ("where", where), ("count_nonzero", lambda b: A.reduce(lambda v: sum(map(bool, v)), b["a"], axis(b), "int64")),
        ("any", lambda b: A.reduce(lambda v: any(v), b["a"], axis(b), "bool")), ("all", lambda b: A.reduce(lambda v: all(v), b["a"], axis(b), "bool")),
        ("sum", lambda b: A.reduce(total, b["a"], axis(b), summed_kind(b["a"]))), ("max", lambda b: A.reduce(maximum, b["a"], axis(b), "int64")), ("argmax", lambda b: A.reduce(argmax, b["a"], axis(b), "int64")),
        ("bitwise_xor", lambda b: A.zip2(OPS["xor"], b["x1"], b["x2"])), ("bitwise_and", lambda b: A.zip2(OPS["and"], b["x1"], b["x2"])),
        ("logical_xor", lambda b: A.zip2(lambda x, y: bool(x) != bool(y), b["x1"], b["x2"], "bool")), ("logical_and", lambda b: A.zip2(lambda x, y: bool(x and y), b["x1"], b["x2"], "bool")),
        ("logical_or", lambda b: A.zip2(lambda x, y: bool(x or y), b["x1"], b["x2"], "bool")), ("matmul", lambda b: A.matmul(b["x1"], b["x2"])), ("dot", lambda b: A.matmul(b["a"], b["b"])),
        ("logical_not", lambda b: A.zip2(lambda x, y: not x, b["x"], 0, "bool")), ("mod", lambda b: A.zip2(OPS["mod"], b["x1"], b["x2"])),
        ("array_equal", equal), ("transpose", np_transpose), ("copy", lambda b: A.copied(A.arr(b["a"]))), ("searchsorted", searchsorted),
    ):
        one(M + n, f)
    return H


def lock_hook(interp, bound, node):
    """utils.lock: the same numbers, complex."""
    A = Arrays(interp)
    a = A.arr(next(iter(bound.values())))
    return A.make([int(x) if isinstance(x, bool) else x for x in A.values(a)], a.fields["_shape"], "complex128")
