"""Builtin functions, container methods and the few external functions with a meaning in the domain."""

from __future__ import annotations

import ast
import itertools
from fractions import Fraction

from .interp import *  # noqa: F403
from .interp import ANY_T, BOOLT, FLOATT, INTT, MUTATORS, STRT, Interp, Raise_, freeze, is_atom, mk_comp, mk_exists, mk_mod, mk_str, mk_sum, norm_comp_set, subterms, typ_of, SuperV
from .program import AnalysisError, Class, Func, Module
from .values import EMPTY, known_set, IMAG, BoundBuiltin, DictV, EnumVal, Ext, FuncVal, Inst, ListV, Obj, Partial, SetV, Splat, Term, and_norm, is_num, minus_norm, or_norm, padd, pinv, pmul, psqrt, show, xor_norm

PURE_NP = {}


class BuiltinMixin:
    def call_ext(self, f: Ext, args, kwargs, node):
        n = f.name
        short = n.split(".")[-1]
        if n.startswith("builtins."):
            h = getattr(self, "b_" + short, None)
            if h is not None:
                return h(args, kwargs, node)
            if short[:1].isupper() or short.endswith("Error"):
                return Term("exc", short, *[freeze(a) for a in args])
        if n.startswith(("builtins.set.", "builtins.frozenset.", "builtins.str.", "builtins.dict.", "builtins.list.")) and args:
            segs = [x for a in args for x in (self.as_items(a.term) if isinstance(a, Splat) else [a])]
            if not any(isinstance(x, Splat) for x in segs):
                v = self.rd(segs[0])
                if isinstance(v, {"set": SetV, "frozenset": SetV, "str": str, "dict": DictV, "list": ListV}[n.split(".")[1]]):
                    return self.method(v, short, segs[1:], kwargs, node)
        h = self.EXT.get(n)
        if h is not None:
            r = h(self, args, kwargs, node)
            if r is not NotImplemented:
                return r
        fz = {str(i): freeze(a) for i, a in enumerate(args)}
        fz.update({k: freeze(v) if k != "**" else tuple(v) for k, v in kwargs.items()})
        if n.startswith("localclass."):
            return Term("exc", short)
        ev = self.event("call", n, fz, node, value=(args, kwargs))
        if short[:1].isupper() or n.startswith("networkx.") and short in ("Graph", "DiGraph") or short in ("zeros", "empty", "ones", "zeros_like", "empty_like", "full", "copy", "deepcopy"):
            # constructors give a fresh object
            if short not in ("copy", "deepcopy"):
                return Term("call", n, tuple(sorted(fz.items())), Term("fresh", len([e for e in self.st.events if e.kind == "call" and e.name == n])), typ=("ext", n))
        return Term("call", n, tuple(sorted(fz.items())))

    # ---- builtins
    def b_len(self, a, k, node):
        v = self.rd(a[0])
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, ListV) and v.exact:
            return len(v.items)
        if isinstance(v, DictV) and v.exact:
            return len(v.items)
        if isinstance(v, ListV):
            acc = 0
            for x in v.items:
                acc = padd(acc, Term("len", x.term, typ=INTT) if isinstance(x, Splat) else 1)
            return acc
        if isinstance(v, SetV):
            if v.term == EMPTY:
                return 0
            if v.term.op == "setlit" and (len(v.term.args[0]) == 1 or known_set(v.term)):
                return len(v.term.args[0])
            return Term("len", v.term, typ=INTT)
        if isinstance(v, Inst):
            m = v.cls.find_method("__len__")
            if m:
                return self.call_func(m, [v], {})
        if isinstance(v, Class) and v.is_enum:
            return len(v.enum_members())
        if isinstance(v, Term) and v.typ and v.typ[0] == "tup":
            return len(v.typ[1])
        if isinstance(v, Term):
            r = self.class_op(v, "__len__", []) if self.alts(v) else None
            if r is not None:
                return r
            if v.op in ("lst", "sorted", "reversed"):
                return self.b_len([v.args[0]], {}, node)
            if v.op == "list" and not any(isinstance(x, Term) and x.op == "splat" for x in v.args):
                return len(v.args)
        return Term("len", freeze(v), typ=INTT)

    def b_range(self, a, k, node):
        fz = [freeze(x) for x in a]
        if len(fz) == 2 and fz[0] == 0:
            fz = fz[1:]
        if all(isinstance(x, int) for x in fz) and len(range(*fz)) <= 64:
            return self.mklist(list(range(*fz)), "tuple")
        return Term("range", *fz, typ=("seq", INTT, "range"))

    def b_enumerate(self, a, k, node):
        v = self.rd(a[0])
        start = a[1] if len(a) > 1 else k.get("start", 0)
        its = self.as_items(v) if not isinstance(v, Term) else None
        if its is not None and not any(isinstance(x, Splat) for x in its):
            return self.mklist([(padd(i, freeze(start)), x) for i, x in enumerate(its)], "gen")
        return Term("enumerate", freeze(v), *((freeze(start),) if start != 0 else ()))

    def b_zip(self, a, k, node):
        segs = []
        for x in a:
            x = self.rd(x)
            try:
                its = self.as_items(x)
            except AnalysisError:
                its = [Splat(freeze(x))]
            segs.append(its)
        if all(not any(isinstance(i, Splat) for i in s) for s in segs):
            if len({len(s) for s in segs}) > 1 and k.get("strict") is True:
                raise Raise_("ValueError", (), node, True)
            return self.mklist([tuple(t) for t in zip(*segs)], "gen")
        # a known side bounds the other
        known = [s for s in segs if not any(isinstance(i, Splat) for i in s)]
        if known and k.get("strict") is True:
            n = len(known[0])
            cols = []
            for s, x in zip(segs, a):
                cols.append(s if not any(isinstance(i, Splat) for i in s) else [self.getitem(x, i) for i in range(n)])
            return self.mklist([tuple(t) for t in zip(*cols)], "gen")
        return Term("zip", *[freeze(x) for x in a])

    def b_sorted(self, a, k, node):
        v = self.rd(a[0])
        its = self.as_items(v)
        if not any(isinstance(x, Splat) for x in its):
            if all(is_num(x) for x in its) and not k:
                return self.mklist(sorted(its))
            r = self._ground_sort(its, k, node)
            if r is not None:
                return self.mklist(r)
            if len(its) <= 1:
                return self.mklist(its)
        kk = tuple(sorted((x, freeze(y)) for x, y in k.items()))
        t = freeze(v)
        return self.mklist([Splat(Term("sorted", t, *((kk,) if kk else ()), typ=("seq", elem_type(t.typ) or ANY_T, "list") if isinstance(t, Term) and t.typ else None))])

    def _ground_sort(self, its, k, node):
        """Items sorted when all their keys are known."""
        if set(k) - {"key", "reverse"} or not isinstance(k.get("reverse", False), bool) or any(isinstance(x, Splat) for x in its):
            return None
        keys = self._ground_keys(its, k.get("key"), node)
        if keys is None:
            return None
        try:
            idx = sorted(range(len(its)), key=keys.__getitem__, reverse=k.get("reverse", False))
        except TypeError:
            return None
        return [its[i] for i in idx]

    def _ground_keys(self, its, key, node):
        out = []
        for x in its:
            v = self.call(key, [x], {}, node) if key is not None else x
            g = ground(freeze(v))
            if g is None:
                return None
            out.append(g[0])
        return out

    def b_reversed(self, a, k, node):
        v = self.rd(a[0])
        its = self.as_items(v)
        if not any(isinstance(x, Splat) for x in its):
            return self.mklist(list(reversed(its)), "gen")
        t = freeze(v)
        if isinstance(t, Term) and t.op == "reversed":
            return self.mklist([Splat(t.args[0])])
        return self.mklist([Splat(Term("reversed", t, typ=("seq", elem_type(typ_of(t)) or ANY_T, "list")))])

    def b_list(self, a, k, node, kind="list"):
        if not a:
            return self.mklist([], kind)
        v = self.rd(a[0])
        if isinstance(v, Ext):
            return self.mklist([Splat(freeze(v))], kind)
        return self.mklist(self.as_items(v), kind)

    def b_tuple(self, a, k, node):
        if not a:
            return ()
        its = self.as_items(a[0])
        if not any(isinstance(x, Splat) for x in its):
            return tuple(its)
        return self.mklist(its, "tuple")

    def b_iter(self, a, k, node):
        return self.b_list(a, k, node, "gen")

    def b_set(self, a, k, node):
        if not a:
            return self.mkset(EMPTY)
        return self.mkset(self.set_term(a[0]))

    def b_frozenset(self, a, k, node):
        r = self.b_set(a, k, node)
        r.frozen = True
        return r

    def b_dict(self, a, k, node):
        d = self.mkdict()
        if a:
            v = self.rd(a[0])
            if isinstance(v, Term):
                v2 = v
                d.rest = [Splat(v2)]
                d.typ = v.typ
                if v.op == "zip":
                    el = self.elem_of(v)
                    if isinstance(el, tuple) and len(el) == 2:
                        d.rest = [Splat(Term("dcomp", frozenset([(((v, freeze(el)),), frozenset(), ((freeze(el[0]), freeze(el[1])),))])))]
            else:
                self.dict_method(d, "update", [v], {}, node)
        for kk, vv in k.items():
            if kk == "**":
                d.rest += [Splat(x) for x in vv]
            else:
                d.items[kk] = (kk, vv)
        return d

    def b_any(self, a, k, node):
        v = self.rd(a[0])
        its = self.as_items(v)
        r = []
        for x in its:
            if isinstance(x, Splat):
                t = x.term
                r.append(Term("exists", ((t, Term("elem", t)),), frozenset([frozenset([(Term("truthy", Term("elem", t)), True)])]), typ=BOOLT))
            else:
                r.append(self.truthy_atom(freeze(x)) if isinstance(x, Term) else self.truth(x))
        return self.disj(r) if r else False

    def b_all(self, a, k, node):
        its = self.as_items(a[0])
        r = []
        for x in its:
            if isinstance(x, Splat):
                t = x.term
                r.append(Term("not", Term("exists", ((t, Term("elem", t)),), frozenset([frozenset([(Term("truthy", Term("elem", t)), False)])]), typ=BOOLT)))
            else:
                r.append(self.truthy_atom(freeze(x)) if isinstance(x, Term) else self.truth(x))
        return self.conj(r) if r else True

    def b_sum(self, a, k, node):
        its = self.as_items(a[0])
        acc = freeze(a[1]) if len(a) > 1 else freeze(k.get("start", 0))
        if isinstance(self.rd(a[0]), ListV) and its and isinstance(its[0], ListV):
            r = its[0]
            for x in its[1:]:
                r = self.binop(ast.Add(), r, x)
            return r
        for x in its:
            acc = padd(acc, mk_sum(x.term) if isinstance(x, Splat) else freeze(x))
        return acc

    def _minmax(self, n, a, k, node):
        if len(a) == 1:
            its = self.as_items(a[0])
        else:
            its = list(a)
        if its and all(is_num(x) for x in its) and "key" not in k:
            return (min if n == "min" else max)(its)
        if len(its) == 1 and not isinstance(its[0], Splat):
            return its[0]
        if not its:
            if "default" in k:
                return k["default"]
            raise Raise_("ValueError", (f"{n}() arg is an empty sequence",), node, True)
        if not any(isinstance(x, Splat) for x in its):
            keys = self._ground_keys(its, k.get("key"), node)
            if keys is not None:
                try:
                    return its[(min if n == "min" else max)(range(len(its)), key=keys.__getitem__)]
                except TypeError:
                    pass
        fz = frozenset(freeze(x) for x in its)
        kk = tuple(sorted((x, freeze(y)) for x, y in k.items()))
        t = None
        for x in its:
            if isinstance(x, Splat):
                t = elem_type(typ_of(x.term))
        return Term(n, fz, kk, typ=t or INTT)

    def b_min(self, a, k, node):
        return self._minmax("min", a, k, node)

    def b_max(self, a, k, node):
        return self._minmax("max", a, k, node)

    def b_abs(self, a, k, node):
        v = self.rd(a[0])
        if is_num(v):
            return abs(v)
        c = _constant(freeze(v))
        if c is None and is_scalar(freeze(v)):
            po = to_poly(freeze(v))
            if len(po) == 1 and all(isinstance(x, Term) and x.op == "sqrt" and is_num(x.args[0]) for m in po for x, _ in m):
                return from_poly({m: abs(q) for m, q in po.items()})
        if c is not None and c[1]:
            return psqrt(c[0] * c[0] + c[1] * c[1])
        r = self._num_dunder(v, "__abs__")
        if r is None and self.arrays and isinstance(v, Term):
            from . import arrays

            if arrays.is_number(v):
                return psqrt(arrays.product_of(v, arrays.conj(v)))
        return r if r is not None else Term("abs", freeze(v), typ=typ_of(v))

    def _num_dunder(self, v, name):
        m = self.dunder(v, name)
        if m:
            return self.call_func(m, [v], {})
        if isinstance(v, Term):
            return self.class_op(v, name, [])
        return None

    def b_int(self, a, k, node):
        if not a:
            return 0
        v = self.rd(a[0])
        if isinstance(v, bool):
            return int(v)
        if is_num(v):
            return int(v)
        if isinstance(v, Term) and typ_of(v) == INTT:
            return v
        if isinstance(v, Term) and is_atom(v):
            return 1 if self.truth(v) else 0
        if isinstance(v, (Inst, EnumVal)):
            r = self._num_dunder(v, "__int__")
            if r is not None:
                return r
        return Term("int", freeze(v), typ=INTT)

    def b_float(self, a, k, node):
        v = self.rd(a[0])
        if is_num(v):
            return v
        r = self._num_dunder(v, "__float__")
        if r is not None:
            return r
        if isinstance(v, str):
            return Term("float", v, typ=FLOATT)
        if self.arrays and isinstance(v, Term):
            from . import arrays

            if arrays.is_number(v) and arrays.total([v, pmul(-1, arrays.conj(v))]) == 0:
                return v
        return freeze(v) if typ_of(v) in (FLOATT, INTT) else Term("float", freeze(v), typ=FLOATT)

    def b_complex(self, a, k, node):
        if len(a) == 1:
            v = self.rd(a[0])
            if isinstance(v, (Inst, EnumVal)):
                for d in ("__complex__", "__float__"):
                    r = self._num_dunder(v, d)
                    if r is not None:
                        return r
            if self.arrays and isinstance(v, Term):
                from . import arrays

                if arrays.is_number(v):
                    return v
            return v if is_num(v) or _constant(v) is not None else Term("complex", freeze(v))
        return padd(freeze(a[0]), pmul(IMAG, freeze(a[1])))

    def b_bool(self, a, k, node):
        v = self.rd(a[0]) if a else False
        if isinstance(v, Term):
            return self.truthy_atom(v)
        return self.truth(v)

    def b_str(self, a, k, node):
        return self.to_str(a[0]) if a else ""

    def b_repr(self, a, k, node):
        v = self.rd(a[0])
        if isinstance(v, str):
            return repr(v)
        return Term("repr", freeze(v), typ=STRT)

    def b_print(self, a, k, node):
        return None

    def b_id(self, a, k, node):
        return Term("id", freeze(a[0]), typ=INTT)

    def b_hash(self, a, k, node):
        return Term("hash", freeze(a[0]), typ=INTT)

    def b_callable(self, a, k, node):
        v = self.rd(a[0])
        if isinstance(v, (FuncVal, Func, Class, BoundBuiltin, Partial)):
            return True
        return Term("callable", freeze(v), typ=BOOLT)

    def b_round(self, a, k, node):
        v = self.rd(a[0])
        if is_num(v) and len(a) == 1:
            return round(v)
        return Term("round", *[freeze(x) for x in a], typ=INTT)

    def b_divmod(self, a, k, node):
        x, y = freeze(a[0]), freeze(a[1])
        if is_num(x) and is_num(y) and y != 0:
            return divmod(x, y)
        return (Term("floordiv", x, y, typ=INTT), mk_mod(x, y))

    def b_pow(self, a, k, node):
        return self.binop(ast.Pow(), a[0], a[1], node)

    def b_isinstance(self, a, k, node):
        return self.isinstance(a[0], a[1])

    def b_issubclass(self, a, k, node):
        x, y = self.rd(a[0]), self.rd(a[1])
        if isinstance(x, Class) and isinstance(y, Class):
            return x.is_subclass(y)
        return Term("issubclass", freeze(x), freeze(y), typ=BOOLT)

    def b_type(self, a, k, node):
        v = self.rd(a[0])
        if isinstance(v, (Inst, EnumVal)):
            return v.cls
        if isinstance(v, Term):
            al = self.alts(v)
            if al and all(x[0] in ("exact", "enum") for x in al):
                if len(al) > 1:
                    al = (self.pick_class(v, al),)
                return al[0][1]
        return Term("typeof", freeze(v))

    def b_getattr(self, a, k, node):
        n = self.rd(a[1])
        if isinstance(n, str):
            return self.getattr(a[0], n, node)
        if isinstance(n, Term) and isinstance(self.rd(a[0]), Class):
            pass
        return Term("getattr", freeze(a[0]), freeze(n))

    def b_setattr(self, a, k, node):
        n = self.rd(a[1])
        if isinstance(n, str):
            self.setattr(a[0], n, a[2], node)
        else:
            self.event("setattr", "?", {"obj": freeze(a[0]), "value": freeze(a[2]), "name": freeze(n)}, node)
        return None

    def b_hasattr(self, a, k, node):
        v = self.rd(a[0])
        if isinstance(v, Inst) and isinstance(a[1], str):
            return a[1] in v.fields or self.has_attr(v.cls, a[1])
        return Term("hasattr", freeze(v), freeze(a[1]), typ=BOOLT)

    def b_next(self, a, k, node):
        v = self.rd(a[0])
        if isinstance(v, ListV) and v.items and not isinstance(v.items[0], Splat):
            return v.items.pop(0)
        if isinstance(v, ListV) and not v.items:
            if len(a) > 1:
                return a[1]
            raise Raise_("StopIteration", (), node, True)
        t = freeze(v)
        if isinstance(t, Term) and t.op == "comp":
            at = self.truthy_atom(t)
            if not (at if isinstance(at, bool) else self.decide(at)):
                if len(a) > 1:
                    return a[1]
                raise Raise_("StopIteration", (), node, True)
            alts = sorted(t.args[0], key=show)
            i = self.choose(len(alts))
            ctx, gs, vals = alts[i]
            for x, y in sorted(gs, key=show):
                self.reassume(x, y)
            return self.rd(vals[0]) if vals else Term("next", t)
        if len(a) > 1:
            at = self.truthy_atom(t)
            if not (at if isinstance(at, bool) else self.decide(at)):
                return a[1]
        return self.elem_of(t) if isinstance(t, Term) and t.op not in ("acc", "phi") else Term("next", t, typ=elem_type(typ_of(t)))

    def b_map(self, a, k, node):
        fn = a[0]
        if len(a) == 2:
            return self._lazy_map(fn, a[1], node)
        z = self.b_zip(a[1:], {}, node)
        return self._lazy_map(Partial(Ext("sa.starcall"), [fn], {}), z, node)

    def _lazy_map(self, fn, it, node, filt=False):
        """map / filter as a comprehension."""
        tgt = ast.Name(id="%x", ctx=ast.Store())
        ld = ast.Name(id="%x", ctx=ast.Load())
        call = ast.Call(func=ast.Name(id="%f", ctx=ast.Load()), args=[ld], keywords=[])
        gen = ast.comprehension(target=tgt, iter=ast.Name(id="%it", ctx=ast.Load()), ifs=[call] if filt else [], is_async=0)
        e = ast.ListComp(elt=ld if filt else call, generators=[gen])
        for n in ast.walk(e):
            n.lineno = getattr(node, "lineno", 0)
            n.col_offset = 0
        fr = self.fr
        old = {k: fr.env.get(k) for k in ("%f", "%it")}
        fr.env["%f"], fr.env["%it"] = fn, it
        try:
            return self.mklist(self.comp_eval(e, lambda: self.eval(e.elt)), "gen")
        finally:
            for k2, v2 in old.items():
                if v2 is None:
                    self.fr.env.pop(k2, None)
                else:
                    self.fr.env[k2] = v2

    def b_filter(self, a, k, node):
        return self._lazy_map(a[0] if a[0] is not None else Ext("builtins.bool"), a[1], node, True)

    def b_slice(self, a, k, node):
        a = list(a)
        return slice(*a)

    def b_object(self, a, k, node):
        return Term("object")

    def b_format(self, a, k, node):
        if all(isinstance(x, (int, str)) for x in a) and (len(a) == 1 or isinstance(a[1], str)):
            return format(*a)
        return Term("fmt", *[freeze(x) for x in a], typ=STRT)

    # ---- methods of containers and opaque terms
    def method(self, base, name, args, kwargs, node):
        base = self.rd(base)
        if isinstance(base, SuperV):
            return None
        if name in _DUNDERS and not kwargs and isinstance(base, (ListV, SetV, DictV, tuple)) and len(args) == _DUNDERS[name][0]:
            return _DUNDERS[name][1](self, base, args, node)
        if isinstance(base, ListV):
            return self.list_method(base, name, args, kwargs, node)
        if isinstance(base, SetV):
            return self.set_method(base, name, args, node)
        if isinstance(base, DictV):
            return self.dict_method(base, name, args, kwargs, node)
        if isinstance(base, tuple):
            if name == "index":
                for i, x in enumerate(base):
                    if self.truth(self.equal(x, args[0])):
                        return i
                raise Raise_("ValueError", (), node, True)
            if name == "count":
                return sum(1 for x in base if self.truth(self.equal(x, args[0])))
        if isinstance(base, str):
            return self.str_method(base, name, args, kwargs, node)
        if isinstance(base, Term):
            return self.term_method(base, name, args, kwargs, node)
        if is_num(base):
            if name in ("conjugate",):
                return base
            if name == "is_integer":
                return not isinstance(base, Fraction) or base.denominator == 1
            if name == "limit_denominator" and not isinstance(base, complex):
                r = Fraction(base).limit_denominator(*[int(x) for x in args], **{k: int(v) for k, v in kwargs.items()})
                return int(r) if r.denominator == 1 else r
            if name == "as_integer_ratio" and not isinstance(base, complex):
                r = Fraction(base)
                return (r.numerator, r.denominator)
            if name in ("bit_length", "bit_count") and isinstance(base, int):
                return getattr(base, name)()
        return Term("mcall", freeze(base), name, *[freeze(a) for a in args])

    def str_method(self, s, name, args, kwargs, node):
        if name == "join":
            its = self.as_items(args[0])
            if any(isinstance(x, Splat) for x in its):
                return Term("join", s, freeze(args[0]), typ=STRT)
            parts = []
            for i, x in enumerate(its):
                if i:
                    parts.append(s)
                parts.append(x if isinstance(x, (str, Term)) else freeze(x))
            return mk_str(parts)
        if isinstance(s, str) and all(isinstance(a, (str, int)) for a in args) and not kwargs and name in ("lower", "upper", "startswith", "endswith", "strip", "replace", "split", "title", "capitalize", "rstrip", "lstrip"):
            r = getattr(s, name)(*args)
            return self.mklist(r) if isinstance(r, list) else r
        if name == "format":
            return Term("fmt", s, *[freeze(a) for a in args], typ=STRT)
        return Term("mcall", freeze(s), name, *[freeze(a) for a in args], typ=STRT if name in ("lower", "upper", "strip", "replace", "title") else None)

    def term_method(self, t, name, args, kwargs, node):
        t = self.rd(t)
        if not isinstance(t, Term):
            return self.call(self.getattr(t, name, node), args, kwargs, node)
        if self.arrays:
            from . import arrays

            if arrays.is_number(t):
                if name in ("conj", "conjugate"):
                    return arrays.conj(t)
                if name in ("astype", "item", "copy", "__complex__"):
                    return t
                if name == "reshape":
                    return self.call(self.getattr(arrays.Arrays(self).make([t], (), "complex128"), name, node), args, kwargs, node)
        typ = t.typ
        if typ and typ[0] == "uni":
            ts = [x for x in typ[1] if x != ("none",)]
            typ = ts[0] if len(ts) == 1 else typ
        kind = typ[0] if typ else None
        if t.op in ("comp", "list", "sorted", "reversed") and kind is None:
            kind = "seq"
        if name in MUTATORS and kind in ("set", "seq", "map"):
            o = self.materialise(t)
            return self.method(o, name, args, kwargs, node)
        if name in MUTATORS and kind is None and name in ("append", "extend", "add", "discard", "setdefault", "appendleft"):
            o = self.materialise(t, {"append": "list", "extend": "list", "appendleft": "list", "add": "set", "discard": "set", "setdefault": "dict"}[name])
            return self.method(o, name, args, kwargs, node)
        if kind == "set" or self.is_set(t):
            r = self.set_pure(t, name, args)
            if r is not NotImplemented:
                return r
        if kind == "map" or name in ("items", "keys", "values"):
            r = self.dict_pure(t, name, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if kind == "seq" or t.op in ("list", "comp"):
            if name == "copy":
                return self.mklist([Splat(t)])
            if name == "index":
                return Term("indexof", t, freeze(args[0]), typ=INTT)
            if name == "count":
                return Term("count", t, freeze(args[0]), typ=INTT)
        if typ == STRT or t.op == "str":
            return self.str_method(t, name, args, kwargs, node)
        if name in SET_PURE and kind is None and name != "copy":
            r = self.set_pure(t, name, args)
            if r is not NotImplemented:
                return r
        if name == "get" and kind is None and len(args) <= 2 and t.op not in ("attr",):
            pass
        fz = {str(i): freeze(a) for i, a in enumerate(args)}
        fz.update({k: freeze(v) if k != "**" else tuple(v) for k, v in kwargs.items()})
        self.event("mcall", name, {"obj": t, **fz}, node, value=(args, kwargs))
        return Term("mcall", t, name, tuple(sorted(fz.items())))

    def set_pure(self, t, name, args):
        if name == "union":
            return self.mkset(or_norm([t, *[self.set_term(a) for a in args]]))
        if name == "intersection":
            return self.mkset(and_norm([t, *[self.set_term(a) for a in args]]))
        if name == "difference":
            r = t
            for a in args:
                r = minus_norm(r, self.set_term(a))
            return self.mkset(r)
        if name == "symmetric_difference":
            return self.mkset(xor_norm([t, self.set_term(args[0])]))
        if name == "issubset":
            return self.negv(self.truthy_atom(minus_norm(t, self.set_term(args[0]))))
        if name == "issuperset":
            return self.negv(self.truthy_atom(minus_norm(self.set_term(args[0]), t)))
        if name == "isdisjoint":
            return self.negv(self.truthy_atom(and_norm([t, self.set_term(args[0])])))
        if name == "copy":
            return self.mkset(t)
        return NotImplemented

    def set_method(self, s: SetV, name, args, node):
        r = self.set_pure(s.term, name, args)
        if r is not NotImplemented:
            return r
        old = s.term
        if name == "add":
            s.term = or_norm([s.term, Term("setlit", frozenset([freeze(args[0])]))]) if s.term.op != "setlit" else Term("setlit", s.term.args[0] | {freeze(args[0])})
        elif name in ("discard", "remove"):
            x = freeze(args[0])
            if name == "remove":
                c = self.contains(args[0], s)
                if not (c if isinstance(c, bool) else self.decide(c)):
                    raise Raise_("KeyError", (x,), node, True)
            if s.term.op == "setlit" and x in s.term.args[0] and all(not isinstance(y, Term) for y in s.term.args[0]):
                s.term = Term("setlit", s.term.args[0] - {x})
            else:
                s.term = minus_norm(s.term, Term("setlit", frozenset([x])))
        elif name == "update":
            s.term = or_norm([s.term, *[self.set_term(a) for a in args]])
        elif name == "difference_update":
            for a in args:
                s.term = minus_norm(s.term, self.set_term(a))
        elif name == "intersection_update":
            s.term = and_norm([s.term, *[self.set_term(a) for a in args]])
        elif name == "symmetric_difference_update":
            s.term = xor_norm([s.term, self.set_term(args[0])])
        elif name == "clear":
            s.term = EMPTY
        elif name == "pop":
            if s.term == EMPTY:
                raise Raise_("KeyError", (), node, True)
            x = Term("pick", s.term, typ=elem_type(typ_of(s.term)))
            s.term = minus_norm(s.term, Term("setlit", frozenset([x])))
            self.event("mutate", name, {"obj": old}, node)
            return x
        else:
            return Term("mcall", s.term, name, *[freeze(a) for a in args])
        self.event("mutate", name, {"obj": old, **{str(i): freeze(a) for i, a in enumerate(args)}}, node, value=s)
        return None

    def list_method(self, l: ListV, name, args, kwargs, node):
        old = None
        if name in ("append", "add"):
            if l.kind != "set":
                old = freeze(l)
                l.items.append(args[0])
        elif name == "appendleft":
            old = freeze(l)
            l.items.insert(0, args[0])
        elif name == "extend":
            old = freeze(l)
            l.items.extend(self.as_items(args[0]))
        elif name == "insert":
            old = freeze(l)
            if isinstance(args[0], int) and (args[0] == 0 or l.exact):
                l.items.insert(args[0], args[1])
            else:
                l.items = [Splat(Term("insert", old, freeze(args[0]), freeze(args[1])))]
        elif name in ("pop", "popleft"):
            i = args[0] if args else (0 if name == "popleft" else -1)
            old = freeze(l)
            if isinstance(i, int) and l.items and (l.exact or (i == -1 and not isinstance(l.items[-1], Splat)) or (i == 0 and not isinstance(l.items[0], Splat))):
                try:
                    v = l.items.pop(i)
                except IndexError:
                    raise Raise_("IndexError", (), node, True) from None
            elif not l.items:
                raise Raise_("IndexError", (), node, True)
            else:
                v = Term("getitem", old, freeze(i), typ=elem_type(typ_of(old)))
                l.items = [Splat(Term("without", old, freeze(i), typ=typ_of(old)))]
            self.event("mutate", name, {"obj": old, **{str(j): freeze(a) for j, a in enumerate(args)}}, node, value=l)
            return v
        elif name == "remove":
            old = freeze(l)
            if l.exact and not any(isinstance(x, Term) for x in l.items) and freeze(args[0]) in [freeze(x) for x in l.items]:
                l.items.pop([freeze(x) for x in l.items].index(freeze(args[0])))
            else:
                l.items = [Splat(Term("removed", old, freeze(args[0]), typ=typ_of(old)))]
        elif name == "clear":
            old = freeze(l)
            l.items = []
        elif name in ("sort", "reverse"):
            old = freeze(l)
            if name == "reverse":
                l.items = self.as_items(self.b_reversed([l], {}, node))
            else:
                l.items = self.as_items(self.b_sorted([l], kwargs, node))
        elif name == "copy":
            return self.mklist(l.items, l.kind)
        elif name == "index":
            for i, x in enumerate(l.items):
                if isinstance(x, Splat):
                    return Term("indexof", freeze(l), freeze(args[0]), typ=INTT)
                if self.truth(self.equal(x, args[0])):
                    return i
            raise Raise_("ValueError", (), node, True)
        elif name == "count":
            if l.exact:
                return sum(1 for x in l.items if self.truth(self.equal(x, args[0])))
            return Term("count", freeze(l), freeze(args[0]), typ=INTT)
        elif name in ("conj", "conjugate") and l.kind == "array":
            return self.arr_map(l, self.conj_num)
        elif name in ("diagonal", "trace") and l.kind == "array" and not args:
            r = (_diagonal if name == "diagonal" else _trace)(self, [l], {}, node)
            if r is not NotImplemented:
                return r
        elif name == "transpose" and l.kind == "array" and not args:
            return self.getattr(l, "T")
        elif name in ("astype", "view") and l.kind == "array":
            return self.mklist(l.items, "array")
        elif name == "tolist":
            return l
        elif name == "send":
            return Term("mcall", freeze(l), name)
        else:
            r = self.set_pure(self.set_term(l), name, args) if name in SET_PURE else NotImplemented
            if r is not NotImplemented:
                return r
            fz = {str(i): freeze(a) for i, a in enumerate(args)}
            fz.update({k: freeze(v) for k, v in kwargs.items()})
            self.event("mcall", name, {"obj": freeze(l), **fz}, node, value=(args, kwargs))
            return Term("mcall", freeze(l), name, tuple(sorted(fz.items())))
        self.event("mutate", name, {"obj": old, **{str(i): freeze(a) for i, a in enumerate(args)}}, node, value=l)
        return None

    def conj_num(self, x):
        if is_num(x):
            return x
        if isinstance(x, Term) and x.op == "imag":
            return pmul(-1, IMAG)
        if isinstance(x, Term) and x.op == "poly":
            acc = 0
            for m, c in x.args[0]:
                v = c
                for at, p in m:
                    b = self.conj_num(at)
                    if p < 0:
                        b, p = pinv(b), -p
                    for _ in range(p):
                        v = pmul(v, b)
                acc = padd(acc, v)
            return acc
        if isinstance(x, Term) and x.op == "exp":
            return Term("exp", self.conj_num(x.args[0]))
        if isinstance(x, Ext) and x.name.endswith(".pi"):
            return x
        if isinstance(x, Term) and x.op in ("sqrt", "cos", "sin", "var", "attr", "pi"):
            return x
        return Term("conj", x)

    def dict_pure(self, d, name, args, kwargs, node):
        """d: Term."""
        if name == "items":
            return Term("items", d)
        if name == "keys":
            return d
        if name == "values":
            return Term("values", d)
        vt = d.typ[2] if d.typ and d.typ[0] == "map" else None
        if name == "get":
            k = freeze(args[0])
            dflt = args[1] if len(args) > 1 else kwargs.get("default")
            c = self.contains(args[0], d)
            if c if isinstance(c, bool) else self.decide(c):
                return self.getitem(d, args[0], node)
            return dflt
        if name == "copy":
            o = self.mkdict({}, [Splat(d)])
            o.typ = d.typ
            return o
        return NotImplemented

    def dict_method(self, d: DictV, name, args, kwargs, node):
        old = None
        if name == "items":
            if d.exact:
                return self.mklist([(k, v) for k, v in d.items.values()], "gen")
            if not d.items and len(d.rest) == 1:
                return Term("items", d.rest[0].term)
            return Term("items", freeze(d))
        if name == "keys":
            return d
        if name == "values":
            if d.exact:
                return self.mklist([v for _, v in d.items.values()], "gen")
            return Term("values", freeze(d))
        if name == "get":
            dflt = args[1] if len(args) > 1 else kwargs.get("default")
            c = self.contains(args[0], d)
            if c if isinstance(c, bool) else self.decide(c):
                return self.getitem(d, args[0], node)
            return dflt
        if name == "copy":
            o = self.mkdict(d.items, d.rest)
            o.typ = d.typ
            return o
        if name == "update":
            old = freeze(d)
            for a in args:
                a = self.rd(a)
                if isinstance(a, DictV):
                    d.items.update(a.items)
                    d.rest.extend(a.rest)
                elif isinstance(a, Term) and a.op in ("comp", "zip"):
                    t = a
                    if a.op == "zip":
                        el = self.elem_of(a)
                        t = mk_comp([(((a, freeze(el)),), frozenset(), (freeze(el),))])
                    d.rest.append(Splat(Term("dcomp", t.args[0])))
                elif isinstance(a, Term):
                    d.rest.append(Splat(a))
                else:
                    for x in self.as_items(a):
                        if isinstance(x, Splat):
                            d.rest.append(Splat(Term("dcomp", x.term.args[0]) if isinstance(x.term, Term) and x.term.op == "comp" else x.term))
                        else:
                            kk, vv = self.unpack(x, [1, 2])
                            d.items[freeze(kk)] = (kk, vv)
            for kk, vv in kwargs.items():
                if kk != "**":
                    d.items[kk] = (kk, vv)
        elif name == "setdefault":
            c = self.contains(args[0], d)
            if c if isinstance(c, bool) else self.decide(c):
                return self.getitem(d, args[0], node)
            v = args[1] if len(args) > 1 else None
            d.items[freeze(args[0])] = (args[0], v)
            return v
        elif name == "pop":
            c = self.contains(args[0], d)
            old = freeze(d)
            if c if isinstance(c, bool) else self.decide(c):
                v = self.getitem(d, args[0], node)
                fk = freeze(args[0])
                if fk in d.items:
                    del d.items[fk]
                else:
                    d.items, d.rest = {}, [Splat(Term("without", old, fk, typ=d.typ))]
                self.event("mutate", name, {"obj": old, "0": fk}, node, value=d)
                return v
            if len(args) > 1:
                return args[1]
            raise Raise_("KeyError", (freeze(args[0]),), node, True)
        elif name == "clear":
            old = freeze(d)
            d.items, d.rest = {}, []
        elif name == "popitem":
            old = freeze(d)
            v = (Term("pick", old), Term("pickval", old))
            d.items, d.rest = {}, [Splat(Term("without", old, v[0]))]
            return v
        else:
            return Term("mcall", freeze(d), name, *[freeze(a) for a in args])
        self.event("mutate", name, {"obj": old, **{str(i): freeze(a) for i, a in enumerate(args)}}, node, value=d)
        return None


SET_PURE = {"union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "copy"}


# ---------------------------------------------------------------- external functions
def _sqrt(I, a, k, n):
    v = freeze(a[0])
    return psqrt(v) if not isinstance(v, float) else Term("sqrt", v)


def _constant(v):
    """(real, imaginary) parts of a constant Gaussian rational."""
    if is_num(v):
        return v, 0
    if isinstance(v, float):
        return None
    if isinstance(v, complex):
        return Fraction(v.real), Fraction(v.imag)
    if isinstance(v, Term) and (v == IMAG or v.op == "poly"):
        re, im = Fraction(0), Fraction(0)
        for m, c in to_poly(v).items():
            if m == ():
                re += c
            elif m == ((IMAG, 1),):
                im += c
            else:
                return None
        return re, im
    return None


def _isclose(I, a, k, n):
    """Closeness of two exact constants, with the tolerances asked for (those by default are below what tells constants of interest apart)."""
    from . import arrays

    u, w = I.rd(a[0]), I.rd(a[1])
    if I.arrays and (arrays.is_arr(u) or arrays.is_arr(w)):
        A = arrays.Arrays(I)
        (vu, vw), shape = ((A.values(A.arr(u)), A.values(A.arr(w))), (u if arrays.is_arr(u) else w).fields["_shape"])
        m = arrays.size(shape)
        vu, vw = ([v[0]] * m if len(v) == 1 else v for v in (vu, vw))
        out = [_isclose(I, [p, q], k, n) for p, q in zip(vu, vw, strict=True)]
        return NotImplemented if any(not isinstance(v, bool) for v in out) else A.make(out, shape, "bool")
    x, y = _constant(freeze(a[0])), _constant(freeze(a[1]))
    if I.arrays and (x is None or y is None):
        d = arrays.total([u, pmul(w, -1)]) if arrays.is_number(u) and arrays.is_number(w) else None
        if d is None:
            return NotImplemented
        if d == 0:
            return True
        d, s = arrays.approx(d), arrays.approx(w)
        return False if d is not None and s is not None and abs(d) > 1e-4 * (1 + abs(s)) else NotImplemented
    if x is None or y is None:
        return NotImplemented
    tol = {}
    for name, v in k.items():
        v = _constant(freeze(v))
        if v is None or v[1] or name not in ("rel_tol", "abs_tol", "rtol", "atol"):
            return NotImplemented
        tol[name] = v[0]
    d2 = (x[0] - y[0]) ** 2 + (x[1] - y[1]) ** 2
    m2 = max(x[0] ** 2 + x[1] ** 2, y[0] ** 2 + y[1] ** 2)
    rel, ab = tol.get("rel_tol", tol.get("rtol", 0)), tol.get("abs_tol", tol.get("atol", 0))
    return d2 == 0 or d2 <= rel**2 * m2 or d2 <= ab**2


def _fraction(I, a, k, n):
    """Fractions of exact constants are the constants themselves."""
    if k or not 1 <= len(a) <= 2 or not all(is_num(x) and not isinstance(x, (bool, complex)) for x in a):
        return NotImplemented
    r = Fraction(a[0]) / (Fraction(a[1]) if len(a) == 2 else 1)
    return int(r) if r.denominator == 1 else r


def _allclose(I, a, k, n):
    """Closeness of two exact arrays, entry by entry."""
    x, y = I.rd(a[0]), I.rd(a[1])
    from . import arrays

    if arrays.is_arr(x) or arrays.is_arr(y):
        return NotImplemented if len(a) > 2 or k else _allclose_dense(x, y, arrays)
    sx, sy = I.arr_shape(x), I.arr_shape(y)
    if sx is None or sy is None or (sx != sy and sx and sy):
        return NotImplemented
    res = True
    for idx in itertools.product(*[range(m) for m in (sx or sy)]):
        u, v = (_constant(I.arr_get(w, idx) if s else freeze(w)) for w, s in ((x, sx), (y, sy)))
        if u is None or v is None:
            return NotImplemented
        res = res and u == v
    return res


def _allclose_dense(x, y, arrays):
    """Closeness of arrays of numbers: decided when all differences are zero, or one is a constant far from it."""
    shapes = {v.fields["_shape"] for v in (x, y) if arrays.is_arr(v)}
    if len(shapes) > 1:
        return NotImplemented
    m = arrays.size(*shapes)
    x, y = ([v.fields["_buf"].items[p] for p in v.fields["_pos"]] if arrays.is_arr(v) else [freeze(v)] * m for v in (x, y))
    if not all(map(arrays.is_number, x + y)):
        return NotImplemented
    ds = [arrays.total([u, pmul(v, -1)]) for u, v in zip(x, y, strict=True)]
    if all(d == 0 for d in ds):
        return True
    for d, v in zip(ds, y, strict=True):
        c, w = _constant(d), _constant(v)
        if c is not None and w is not None and c[0] ** 2 + c[1] ** 2 > Fraction(1, 10**9) * (1 + w[0] ** 2 + w[1] ** 2):
            return False
    return NotImplemented


def _diagonal(I, a, k, n):
    sh = I.arr_shape(I.rd(a[0]))
    return _diag(I, a, k, n) if sh and len(sh) == 2 and len(a) == 1 else NotImplemented


def _trace(I, a, k, n):
    d = _diagonal(I, a, k, n)
    if d is NotImplemented:
        return d
    r = 0
    for x in I.as_items(d):
        r = padd(r, freeze(x))
    return r


def _norm(I, a, k, n):
    from . import arrays

    v = I.rd(a[0])
    if not I.arrays or not arrays.is_arr(v) or len(a) > 1 or k:
        return NotImplemented
    return psqrt(arrays.total(arrays.product_of(x, arrays.conj(x)) for x in arrays.Arrays(I).values(v)))


def _arrfn(name):
    def f(I, a, k, n):
        v = I.rd(a[0])
        from . import arrays

        if name == "abs" and I.arrays and arrays.is_arr(v) and len(a) == 1 and not k:
            A = arrays.Arrays(I)
            return A.make([psqrt(arrays.product_of(x, arrays.conj(x))) if not is_num(x) else abs(x) for x in A.values(v)], v.fields["_shape"], "float64")
        sh = I.arr_shape(v)
        if sh is None or len(a) > 1 or k:
            return NotImplemented
        if name == "T":
            if len(sh) != 2:
                return NotImplemented
            return I.mklist([I.mklist([I.arr_get(v, (i, j)) for i in range(sh[0])], "array") for j in range(sh[1])], "array")
        return I.arr_map(v, I.conj_num) if name == "conj" else I.arr_map(v, lambda x: freeze(I.b_abs([x], {}, n)))
    return f


def _replace(I, a, k, n):
    o = I.rd(a[0])
    if isinstance(o, Inst):
        new = I.new(Inst(o.cls, o.fields))
        new.fields.update(k)
        return new
    if isinstance(o, Term):
        al = I.alts(o)
        if al and all(x[0] == "exact" for x in al):
            common = set(k)
            if len(al) > 1:
                fs = {tuple(f[0] for f in x[1].fields()) for x in al}
                al = (I.pick_class(o, al),)
            c = al[0][1]
            new = I.new(Inst(c))
            for f in c.fields():
                new.fields[f[0]] = k[f[0]] if f[0] in k else I.getattr(o, f[0])
            return new
    return Term("replace", freeze(o), tuple(sorted((x, freeze(y)) for x, y in k.items())), typ=typ_of(freeze(o)))


def _array(I, a, k, n):
    v = I.rd(a[0])
    if isinstance(v, (ListV, tuple)) and I.arr_shape(v) is not None:
        return I.arr_map(v, lambda x: x)
    return NotImplemented


def _eye(I, a, k, n):
    if isinstance(a[0], int):
        m = a[0]
        return I.mklist([I.mklist([1 if i == j else 0 for j in range(m)], "array") for i in range(m)], "array")
    return NotImplemented


def _zeros(val):
    def f(I, a, k, n):
        sh = I.rd(a[0])
        if isinstance(sh, ListV):
            sh = tuple(sh.items)
        if isinstance(sh, int):
            sh = (sh,)
        if isinstance(sh, tuple) and sh and all(isinstance(x, int) for x in sh):
            def go(s):
                return I.mklist([go(s[1:]) if len(s) > 1 else val for _ in range(s[0])], "array")
            if len(sh) <= 3:
                return go(sh)
        return NotImplemented
    return f


def _zeros_like(val):
    def f(I, a, k, n):
        sh = I.arr_shape(a[0])
        if sh:
            return _zeros(val)(I, [sh], {}, n)
        return NotImplemented
    return f


def _diag(I, a, k, n):
    v = I.rd(a[0])
    sh = I.arr_shape(v)
    if sh and len(sh) == 2:
        return I.mklist([I.arr_get(v, (i, i)) for i in range(min(sh))], "array")
    if sh and len(sh) == 1:
        return I.mklist([I.mklist([I.arr_get(v, (i,)) if i == j else 0 for j in range(sh[0])], "array") for i in range(sh[0])], "array")
    return NotImplemented


def _kron(I, a, k, n):
    x, y = I.rd(a[0]), I.rd(a[1])
    sx, sy = I.arr_shape(x), I.arr_shape(y)
    if sx and sy and len(sx) == len(sy) == 2:
        return I.mklist([I.mklist([pmul(I.arr_get(x, (i // sy[0], j // sy[1])), I.arr_get(y, (i % sy[0], j % sy[1]))) for j in range(sx[1] * sy[1])], "array") for i in range(sx[0] * sy[0])], "array")
    if sx and sy and len(sx) == len(sy) == 1:
        return I.mklist([pmul(I.arr_get(x, (i // sy[0],)), I.arr_get(y, (i % sy[0],))) for i in range(sx[0] * sy[0])], "array")
    return NotImplemented


def _outer(I, a, k, n):
    x, y = I.rd(a[0]), I.rd(a[1])
    sx, sy = I.arr_shape(x), I.arr_shape(y)
    if sx and sy and len(sx) == len(sy) == 1:
        return I.mklist([I.mklist([pmul(I.arr_get(x, (i,)), I.arr_get(y, (j,))) for j in range(sy[0])], "array") for i in range(sx[0])], "array")
    return NotImplemented


def _matmul(I, a, k, n):
    r = I.arr_binop(ast.MatMult(), I.rd(a[0]), I.rd(a[1]))
    return r if r is not None else NotImplemented


def _at_angle(op, v):
    """Exact value at a multiple of pi/4."""
    p = to_poly(v)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    want = 2 if op == "exp" else 1
    if len(m) != want or any(k != 1 for _, k in m) or (4 * c).denominator != 1:
        return None
    if sum(isinstance(x, Ext) and x.name.endswith(".pi") for x, _ in m) != 1 or want == 2 and not any(x == IMAG for x, _ in m):
        return None
    k = int(4 * c) % 8
    half = psqrt(Fraction(1, 2))
    cos = (1, half, 0, pmul(half, -1), -1, pmul(half, -1), 0, half)
    if op == "cos":
        return cos[k]
    if op == "sin":
        return cos[(k - 2) % 8]
    return padd(cos[k], pmul(IMAG, cos[(k - 2) % 8]))


def _fn(op):
    def f(I, a, k, n):
        v = freeze(a[0])
        if op == "exp":
            if v == 0:
                return 1
        if op in ("cos",) and v == 0:
            return 1
        if op == "sin" and v == 0:
            return 0
        if I.arrays:
            r = _at_angle(op, v)
            if r is not None:
                return r
        return Term(op, v, typ=FLOATT if op != "exp" else None)
    return f


def _log2(I, a, k, n):
    """Exact on powers of two."""
    v = freeze(a[0])
    if is_num(v) and v > 0:
        f = Fraction(v)
        if f.denominator == 1 and f.numerator & (f.numerator - 1) == 0:
            return f.numerator.bit_length() - 1
    return NotImplemented


def _ident(I, a, k, n):
    return a[0]


def _cast(I, a, k, n):
    v = I.rd(a[1])
    if isinstance(v, Term) and v.typ is None and isinstance(a[0], Class):
        return Term(v.op, *v.args, typ=("cls", a[0]))
    return v


def _partial(I, a, k, n):
    return Partial(a[0], list(a[1:]), dict(k))


def _chain(I, a, k, n):
    out = []
    for x in a:
        if isinstance(x, Splat):
            out.extend(_chain_fi(I, [x.term], k, n).items)
        else:
            out.extend(I.as_items(x))
    return I.mklist(out, "gen")


def _chain_fi(I, a, k, n):
    its = I.as_items(a[0])
    out = []
    for x in its:
        if isinstance(x, Splat):
            t = x.term
            if isinstance(t, Term) and t.op == "comp":
                alts = []
                for ctx, gs, vals in t.args[0]:
                    nv = []
                    for v in vals:
                        if isinstance(v, Term) and v.op == "list":
                            nv.extend(v.args)
                        elif isinstance(v, Term) and v.op == "comp":
                            for c2, g2, v2 in v.args[0]:
                                alts.append((ctx + c2, gs | g2, v2))
                        elif isinstance(v, tuple):
                            nv.extend(v)
                        else:
                            alts.append((ctx + ((v, Term("elem", v, typ=elem_type(typ_of(v)))),), gs, (Term("elem", v, typ=elem_type(typ_of(v))),)))
                    if nv:
                        alts.append((ctx, gs, tuple(nv)))
                out.append(Splat(mk_comp(alts)))
            else:
                el = I.elem_of(t)
                e2 = I.elem_of(el) if isinstance(el, Term) else el
                out.append(Splat(mk_comp([(((t, freeze(el)), (el, freeze(e2))), frozenset(), (freeze(e2),))])))
        else:
            out.extend(I.as_items(x))
    return I.mklist(out, "gen")


def _product(I, a, k, n):
    rep = k.get("repeat", 1)
    cols = [I.as_items(x) for x in a] * (rep if isinstance(rep, int) else 1)
    if not isinstance(rep, int) or any(isinstance(x, Splat) for c in cols for x in c):
        return NotImplemented
    import itertools
    out = [tuple(t) for t in itertools.product(*cols)]
    if len(out) > 300:
        return NotImplemented
    return I.mklist(out, "gen")


def _warn(I, a, k, n):
    I.event("warn", "warn", {**{str(i): freeze(x) for i, x in enumerate(a)}, **{x: freeze(y) for x, y in k.items()}}, n)
    return None


def _fromkeys(I, a, k, n):
    its = I.as_items(a[0])
    if any(isinstance(x, Splat) for x in its):
        return NotImplemented
    d = I.mkdict()
    for x in its:
        d.items.setdefault(freeze(x), (x, a[1] if len(a) > 1 else None))
    return d


def _defaultdict(I, a, k, n):
    d = I.mkdict()
    if a:
        d.default = a[0]
    return d


def _deque(I, a, k, n):
    return I.b_list(a, {}, n)


def _copy(I, a, k, n):
    v = I.rd(a[0])
    if isinstance(v, Inst):
        m = v.cls.find_method("__copy__")
        return I.call_func(m, [v], {}) if m else I.new(Inst(v.cls, v.fields))
    if isinstance(v, ListV):
        return I.mklist(list(v.items), v.kind)
    if isinstance(v, DictV):
        return I.mkdict(dict(v.items), v.rest)
    if isinstance(v, Obj):
        return I.adopt(v)
    return v if not isinstance(v, Term) else Term("copy", v, typ=v.typ)


def _deepcopy(I, a, k, n):
    seen = {}

    def go(v):
        v = I.rd(v)
        if isinstance(v, Inst):
            if v.oid in seen:
                return seen[v.oid]
            new = seen[v.oid] = I.new(Inst(v.cls, v.fields))
            for f, x in list(new.fields.items()):
                new.fields[f] = go(x)
            return new
        if isinstance(v, ListV) and not any(isinstance(x, Term) for x in v.items):
            return I.mklist([go(x) for x in v.items], v.kind)
        if isinstance(v, (SetV, DictV)):
            return I.adopt(v)
        return v

    v = I.rd(a[0])
    if isinstance(v, Obj):
        return go(v)
    return v if not isinstance(v, Term) else Term("copy", v, typ=v.typ)


def _never(I, a, k, n):
    raise Raise_("AssertionError", ("assert_never", freeze(a[0])), n, True)


def _starcall(I, a, k, n):
    fn, t = a
    return I.call(fn, I.as_items(t), {}, n)


def _reduce(I, a, k, n):
    its = I.as_items(a[1])
    if any(isinstance(x, Splat) for x in its):
        return NotImplemented
    its = list(its)
    acc = a[2] if len(a) > 2 else its.pop(0)
    for x in its:
        acc = I.call(a[0], [acc, x], {}, n)
    return acc


def _op(op):
    return lambda I, a, k, n: I.binop(op(), a[0], a[1], n)


def _asarr(I, a, k, n):
    r = _array(I, a, k, n)
    return r


def _math_prod(I, a, k, n):
    its = I.as_items(a[0])
    if any(isinstance(x, Splat) for x in its):
        return NotImplemented
    r = 1
    for x in its:
        r = pmul(r, freeze(x))
    return r


def ground(t):
    """(value,) comparable like the known value a term stands for, None when it is not known."""
    if isinstance(t, (bool, int, float, Fraction, str)):
        return (t,)
    if isinstance(t, tuple):
        r = [ground(x) for x in t]
        return None if None in r else (tuple(x[0] for x in r),)
    if isinstance(t, Term) and t.op == "list":
        r = [ground(x) for x in t.args]
        return None if None in r else ([x[0] for x in r],)
    return None


def _contains(I, base, args, node):
    c = I.contains(args[0], base)
    return c if isinstance(c, bool) else I.decide(c)


_DUNDERS = {
    "__getitem__": (1, lambda I, b, a, n: I.getitem(b, a[0])),
    "__contains__": (1, _contains),
    "__len__": (0, lambda I, b, a, n: I.b_len([b], {}, n)),
    "__iter__": (0, lambda I, b, a, n: I.b_iter([b], {}, n)),
    "__or__": (1, lambda I, b, a, n: I.binop(ast.BitOr(), b, a[0], n)),
    "__and__": (1, lambda I, b, a, n: I.binop(ast.BitAnd(), b, a[0], n)),
    "__xor__": (1, lambda I, b, a, n: I.binop(ast.BitXor(), b, a[0], n)),
    "__sub__": (1, lambda I, b, a, n: I.binop(ast.Sub(), b, a[0], n)),
    "__add__": (1, lambda I, b, a, n: I.binop(ast.Add(), b, a[0], n)),
}


def _known_iter(f, nseq=1, limit=400):
    """An itertools function of known sequences followed by known numbers."""

    def g(I, a, k, n):
        if any(not is_num(v) for v in k.values()) or any(not is_num(x) for x in a[nseq:]):
            return NotImplemented
        cols = [I.as_items(x) for x in a[:nseq]]
        if any(isinstance(x, Splat) for c in cols for x in c):
            return NotImplemented
        out = list(itertools.islice(f(*cols, *a[nseq:], **k), limit + 1))
        if len(out) > limit:
            return NotImplemented
        return I.mklist([I.mklist(x, "gen") if isinstance(x, list) else x for x in out], "gen")

    return g


def _accumulate(I, a, k, n):
    its = I.as_items(a[0])
    if any(isinstance(x, Splat) for x in its) or set(k) - {"initial"}:
        return NotImplemented
    out = [k["initial"]] if k.get("initial") is not None else []
    for x in its:
        out.append((I.call(a[1], [out[-1], x], {}, n) if len(a) > 1 else I.binop(ast.Add(), out[-1], x, n)) if out else x)
    return I.mklist(out, "gen")


def _zip_longest(I, a, k, n):
    cols = [I.as_items(x) for x in a]
    if any(isinstance(x, Splat) for c in cols for x in c):
        return NotImplemented
    return I.mklist([tuple(t) for t in itertools.zip_longest(*cols, fillvalue=k.get("fillvalue"))], "gen")


def _counter(I, a, k, n):
    d = I.mkdict()
    d.default = Ext("builtins.int")
    for x in I.as_items(a[0]) if a else ():
        if isinstance(x, Splat):
            return NotImplemented
        I.setitem(d, x, I.binop(ast.Add(), I.getitem(d, x) if _contains(I, d, [x], n) else 0, 1, n))
    return d


def _itemgetter(I, a, k, n):
    if len(a) != 1:
        return NotImplemented
    return Partial(Ext("sa.item"), [a[0]], {})


def _item(I, a, k, n):
    return I.getitem(a[1], a[0])


def _attrgetter(I, a, k, n):
    if len(a) != 1 or not isinstance(a[0], str) or "." in a[0]:
        return NotImplemented
    return Partial(Ext("sa.attr"), [a[0]], {})


def _attr(I, a, k, n):
    return I.getattr(a[1], a[0], n)


BuiltinMixin.EXT = {
    "itertools.pairwise": _known_iter(itertools.pairwise), "itertools.combinations": _known_iter(itertools.combinations), "itertools.permutations": _known_iter(itertools.permutations),
    "itertools.islice": _known_iter(itertools.islice), "itertools.accumulate": _accumulate, "itertools.zip_longest": _zip_longest,
    "operator.itemgetter": _itemgetter, "operator.attrgetter": _attrgetter, "sa.item": _item, "sa.attr": _attr,
    "math.isclose": _isclose, "cmath.isclose": _isclose, "numpy.isclose": _isclose,
    "numpy.allclose": _allclose, "numpy.array_equal": _allclose, "numpy.diagonal": _diagonal, "numpy.trace": _trace,
    "numpy.transpose": _arrfn("T"), "numpy.conj": _arrfn("conj"), "numpy.conjugate": _arrfn("conj"), "numpy.abs": _arrfn("abs"), "numpy.absolute": _arrfn("abs"),
    "fractions.Fraction": _fraction,
    "numpy.linalg.norm": _norm,
    "math.sqrt": _sqrt, "numpy.sqrt": _sqrt, "cmath.sqrt": _sqrt,
    "numpy.log2": _log2, "math.log2": _log2,
    "numpy.exp": _fn("exp"), "cmath.exp": _fn("exp"), "math.exp": _fn("exp"),
    "numpy.cos": _fn("cos"), "math.cos": _fn("cos"), "numpy.sin": _fn("sin"), "math.sin": _fn("sin"),
    "dataclasses.replace": _replace, "copy.replace": _replace,
    "numpy.array": _array, "numpy.asarray": _asarr, "numpy.eye": _eye, "numpy.identity": _eye,
    "numpy.zeros": _zeros(0), "numpy.ones": _zeros(1), "numpy.zeros_like": _zeros_like(0), "numpy.ones_like": _zeros_like(1), "numpy.diag": _diag, "numpy.kron": _kron, "numpy.outer": _outer, "numpy.matmul": _matmul, "numpy.dot": _matmul,
    "builtins.dict.fromkeys": _fromkeys,
    "typing.cast": _cast, "typing_extensions.cast": _cast, "functools.partial": _partial,
    "itertools.chain": _chain, "itertools.chain.from_iterable": _chain_fi, "itertools.product": _product,
    "warnings.warn": _warn, "collections.defaultdict": _defaultdict, "collections.deque": _deque, "collections.Counter": _counter, "copy.copy": _copy, "copy.deepcopy": _deepcopy,
    "typing.assert_never": _never, "typing_extensions.assert_never": _never,
    "sa.starcall": _starcall, "functools.reduce": _reduce, "operator.xor": _op(ast.BitXor), "operator.or_": _op(ast.BitOr), "operator.and_": _op(ast.BitAnd),
    "operator.add": _op(ast.Add), "operator.mul": _op(ast.Mult), "operator.matmul": _op(ast.MatMult), "math.prod": _math_prod,
    "types.MappingProxyType": _ident, "numpy.complex128": _ident, "numpy.float64": _ident, "operator.sub": _op(ast.Sub),
}


class AI(BuiltinMixin, Interp):
    """The abstract interpreter."""
