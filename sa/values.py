"""Abstract values: exact constants, uninterpreted terms in normal form, and abstract containers."""

from __future__ import annotations

from fractions import Fraction


class Term:
    """Hash-consed uninterpreted term. ``typ`` is a hint and is not part of its identity."""

    __slots__ = ("op", "args", "typ", "_h", "_k")

    def __init__(self, op, *args, typ=None):
        self.op = op
        self.args = args
        self.typ = typ
        self._h = hash((op, args))
        self._k = None

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other or (
            isinstance(other, Term) and self._h == other._h and self.op == other.op and self.args == other.args
        )

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def key(self):
        return show(self)

    def __repr__(self):
        return self.key


class EnumVal:
    __slots__ = ("cls", "name")

    def __init__(self, cls, name):
        self.cls = cls
        self.name = name

    def __hash__(self):
        return hash((self.cls.qual, self.name))

    def __eq__(self, o):
        return isinstance(o, EnumVal) and o.cls is self.cls and o.name == self.name

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class Ext:
    """Reference to something outside the package (module, function, class)."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("ext", self.name))

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"ext:{self.name}"


class FuncVal:
    __slots__ = ("func", "closure", "self_", "cls_ctx")

    def __init__(self, func, closure=None, self_=None, cls_ctx=None):
        self.func = func
        self.closure = closure
        self.self_ = self_
        self.cls_ctx = cls_ctx

    def __repr__(self):
        return f"fn:{self.func.qual}"


class BoundBuiltin:
    """Bound method of an abstract container or of a term."""

    __slots__ = ("base", "name")

    def __init__(self, base, name):
        self.base = base
        self.name = name

    def __repr__(self):
        return f"{self.base!r}.{self.name}"


class Partial:
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


_oid = [0]


class Obj:
    def __init__(self):
        _oid[0] += 1
        self.oid = _oid[0]


class ListV(Obj):
    """List (or numpy array): items may contain Splat(term) for unknown-length parts."""

    def __init__(self, items=(), kind="list"):
        super().__init__()
        self.items = list(items)
        self.kind = kind

    @property
    def exact(self):
        return not any(isinstance(x, Splat) for x in self.items)

    def __repr__(self):
        return f"{self.items!r}"


class SetV(Obj):
    """Set with a symbolic value: term (normal form over xor, or, and, minus, setlit)."""

    def __init__(self, term, frozen=False):
        super().__init__()
        self.term = term
        self.frozen = frozen

    def __repr__(self):
        return f"{self.term!r}"


class DictV(Obj):
    def __init__(self, items=None, rest=(), typ=None):
        super().__init__()
        self.items = dict(items or {})  # frozen key -> (key, value)
        self.rest = list(rest)  # Splat parts
        self.typ = typ
        self.default = None

    @property
    def exact(self):
        return not self.rest

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v[1]!r}" for k, v in self.items.items()) + "".join(f", **{r!r}" for r in self.rest) + "}"


class Inst(Obj):
    def __init__(self, cls, fields=None):
        super().__init__()
        self.cls = cls
        self.fields = dict(fields or {})

    def __repr__(self):
        return f"{self.cls.name}({', '.join(f'{k}={v!r}' for k, v in self.fields.items() if v is not self)})"


class Splat:
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __eq__(self, o):
        return isinstance(o, Splat) and o.term == self.term

    def __hash__(self):
        return hash(("splat", self.term))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"*{self.term!r}"


def show(v, depth=0):
    if isinstance(v, Term):
        if v._k is None:
            v._k = _show(v, depth)
        return v._k
    return _show(v, depth)


def _show(v, depth=0):
    if isinstance(v, Term):
        a = [show(x, depth + 1) for x in v.args]
        if v.op == "var":
            return str(v.args[0])
        if v.op == "attr":
            return f"{a[0]}.{v.args[1]}"
        if v.op == "getitem":
            return f"{a[0]}[{a[1]}]"
        if v.op == "elem":
            return f"elem({a[0]})" + (f"#{v.args[1]}" if len(v.args) > 1 and v.args[1] else "")
        if v.op == "mcall":
            return f"{a[0]}.{v.args[1]}({', '.join(a[2:])})"
        if v.op == "call":
            return f"{v.args[0]}({', '.join(a[1:])})"
        if v.op == "new":
            return f"{v.args[0].rsplit('.', 1)[-1]}({', '.join(f'{k}={show(x)}' for k, x in v.args[1])})"
        if v.op == "poly":
            ps = []
            for mono, c in sorted(v.args[0], key=lambda t: str(t)):
                ps.append("*".join([str(c), *(show(at) + (f"^{p}" if p != 1 else "") for at, p in mono)]))
            return "(" + " + ".join(ps) + ")"
        if v.op in ("xor", "or", "and", "setlit"):
            its = sorted(show(x, depth + 1) for x in v.args[0])
            sep = {"xor": " ^ ", "or": " | ", "and": " & ", "setlit": ", "}[v.op]
            return ("{" if v.op == "setlit" else "(") + sep.join(its) + ("}" if v.op == "setlit" else ")")
        return f"{v.op}({', '.join(a)})"
    if isinstance(v, tuple):
        return "(" + ", ".join(show(x, depth + 1) for x in v) + ")"
    if isinstance(v, frozenset):
        return "{" + ", ".join(sorted(show(x, depth + 1) for x in v)) + "}"
    if isinstance(v, EnumVal):
        return repr(v)
    return repr(v) if not isinstance(v, Fraction) else str(v)


def is_num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def is_const(v):
    return v is None or isinstance(v, (bool, int, Fraction, float, str, bytes, EnumVal))


# ---------------------------------------------------------------- polynomials
IMAG = Term("imag")


def to_poly(v):
    if isinstance(v, bool):
        v = int(v)
    if is_num(v):
        return {(): Fraction(v)} if v != 0 else {}
    if isinstance(v, Term) and v.op == "poly":
        return dict(v.args[0])
    return {((v, 1),): Fraction(1)}


def _mono_mul(a, b):
    d = dict(a)
    for at, p in b:
        d[at] = d.get(at, 0) + p
    coef = Fraction(1)
    out = []
    for at, p in d.items():
        if p == 0:
            continue
        if isinstance(at, Term) and at.op == "imag":
            p %= 4
            if p >= 2:
                coef = -coef
                p -= 2
            if p == 0:
                continue
        if isinstance(at, Term) and at.op == "sqrt" and is_num(at.args[0]):
            n = Fraction(at.args[0])
            k = p // 2  # floor
            p -= 2 * k
            coef *= n**k
            if p == 0:
                continue
        elif isinstance(at, Term) and at.op == "sqrt" and p >= 2 and p % 2 == 0:
            inner = at.args[0]
            out.append((inner, p // 2)) if not (isinstance(inner, Term) and inner.op == "poly") else out.append((at, p))
            continue
        out.append((at, p))
    out.sort(key=lambda t: (show(t[0]), t[1]))
    return tuple(out), coef


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return int(c) if c.denominator == 1 else c
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return Term("poly", frozenset(d.items()), typ=("prim", "float"))


def padd(a, b, sign=1):
    d = dict(to_poly(a))
    for m, c in to_poly(b).items():
        d[m] = d.get(m, Fraction(0)) + sign * c
    return from_poly(d)


def pmul(a, b):
    d = {}
    for m1, c1 in to_poly(a).items():
        for m2, c2 in to_poly(b).items():
            m, k = _mono_mul(m1, m2)
            d[m] = d.get(m, Fraction(0)) + c1 * c2 * k
    r = from_poly(d)
    # expand sqrt(x)^2 left as (sqrt(poly), 2)
    if isinstance(r, Term) and r.op == "poly":
        out = None
        for m, c in r.args[0]:
            sq = [(at, p) for at, p in m if isinstance(at, Term) and at.op == "sqrt" and p >= 2]
            if sq:
                out = True
        if out:
            acc = 0
            for m, c in r.args[0]:
                term = c
                for at, p in m:
                    if isinstance(at, Term) and at.op == "sqrt" and p >= 2:
                        for _ in range(p // 2):
                            term = pmul(term, at.args[0])
                        p %= 2
                    if p:
                        term = pmul(term, from_poly({((at, p),): Fraction(1)}))
                acc = padd(acc, term)
            return acc
    return r


def pinv(b):
    pb = to_poly(b)
    if not pb:
        return None
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = tuple((at, -p) for at, p in m)
        m2, k = _mono_mul((), inv)
        return from_poly({m2: k / c})
    return Term("inv", b)


def psqrt(v):
    if is_num(v):
        f = Fraction(v)
        if f >= 0:
            import math

            n, d = f.numerator, f.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                r = Fraction(rn, rd)
                return int(r) if r.denominator == 1 else r
            # sqrt(n/d) = sqrt(n*d)/d with squarefree part extracted
            nd = n * d
            sq = 1
            k = 2
            while k * k <= nd and k < 2000:
                while nd % (k * k) == 0:
                    nd //= k * k
                    sq *= k
                k += 1
            return pmul(Fraction(sq, d), Term("sqrt", nd))
    return Term("sqrt", v)


# ---------------------------------------------------------------- xor / set algebra
EMPTY = Term("setlit", frozenset())


def xor_norm(parts):
    acc = {}
    lits = {}
    for p in parts:
        stack = [p]
        while stack:
            x = stack.pop()
            if isinstance(x, Term) and x.op == "xor":
                stack.extend(x.args[0])
            elif isinstance(x, Term) and x.op == "setlit":
                for e in x.args[0]:
                    lits[e] = lits.get(e, 0) ^ 1
            elif x is False or x is None:
                continue
            else:
                acc[x] = acc.get(x, 0) ^ 1
    out = [x for x, n in acc.items() if n]
    le = frozenset(e for e, n in lits.items() if n)
    if le:
        out.append(Term("setlit", le))
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return Term("xor", frozenset(out), typ=next((getattr(x, "typ", None) for x in out if getattr(x, "typ", None)), None))


def _flat(op, parts):
    out = set()
    for p in parts:
        if isinstance(p, Term) and p.op == op:
            out |= p.args[0]
        else:
            out.add(p)
    return out


def or_norm(parts):
    out = _flat("or", parts)
    lits = frozenset().union(*[x.args[0] for x in out if isinstance(x, Term) and x.op == "setlit"]) if out else frozenset()
    out = {x for x in out if not (isinstance(x, Term) and x.op == "setlit")}
    if lits:
        out.add(Term("setlit", lits))
    if not out:
        return EMPTY
    if len(out) == 1:
        return next(iter(out))
    return Term("or", frozenset(out), typ=next((getattr(x, "typ", None) for x in out if getattr(x, "typ", None)), None))


def and_norm(parts):
    out = _flat("and", parts)
    if any(x == EMPTY for x in out):
        return EMPTY
    known = [x for x in out if known_set(x)]
    if len(known) > 1:
        out = [x for x in out if not known_set(x)]
        k = Term("setlit", frozenset.intersection(*[x.args[0] for x in known]))
        if not k.args[0]:
            return EMPTY
        out.append(k)
    if len(out) == 1:
        return next(iter(out))
    return Term("and", frozenset(out), typ=next((getattr(x, "typ", None) for x in out if getattr(x, "typ", None)), None))


def known_set(t):
    return isinstance(t, Term) and t.op == "setlit" and all(is_constant(x) for x in t.args[0])


def is_constant(x):
    """Scalars, and tuples of them."""
    return is_const(x) or isinstance(x, tuple) and all(map(is_constant, x)) or isinstance(x, Term) and x.op == "list" and all(map(is_constant, x.args)) or known_set(x)


def minus_norm(a, b):
    if a == b or a == EMPTY:
        return EMPTY
    if b == EMPTY:
        return a
    if known_set(a) and known_set(b):
        d = a.args[0] - b.args[0]
        return Term("setlit", d) if d else EMPTY
    if isinstance(a, Term) and a.op == "setminus":
        return Term("setminus", a.args[0], or_norm([a.args[1], b]), typ=a.typ)
    return Term("setminus", a, b, typ=getattr(a, "typ", None))


def bxor_norm(parts):
    """Exclusive or of truth values: constants are folded and equal terms cancel."""
    acc, c = {}, 0
    stack = list(parts)
    while stack:
        x = stack.pop()
        if isinstance(x, Term) and x.op == "bxor":
            stack.extend(x.args[0])
        elif isinstance(x, (bool, int)):
            c ^= int(x)
        else:
            acc[x] = acc.get(x, 0) ^ 1
    out = {x for x, n in acc.items() if n}
    if c:
        out.add(1)
    if not out:
        return 0
    if len(out) == 1:
        return next(iter(out))
    return Term("bxor", frozenset(out), typ=("prim", "bool"))
