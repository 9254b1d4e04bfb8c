"""G03: OpenQASM 3 export of circuits and patterns."""

import re
from fractions import Fraction

from rules.g01 import ALPHA, ANGLED, KINDS, T, instr, placements
from rules.k04 import observable
from sa import mat
from sa.h import *
from sa.interp import to_poly
from sa.values import FuncVal

TECHNIQUE = "static analysis: abstract interpretation with exact constant folding; the exported text is read back and compared over Q(e^{iπ/4}) with symbolic angles"
RULE = (
    "The exporters are folded on one instruction of every kind for every placement of its qubits, and on one command of every kind in a pattern: the statements they produce, read with OpenQASM's own semantics (standard gate library), "
    "must make the exact unitary, preparation, conditional correction and measured observable of what is exported, for every angle, on declared qubits and bits. The text of angles is read back for every fraction of π with a denominator up to 16 and every output format."
)
ASSUMPTIONS = ("OpenQASM 3 standard gates have their specified matrices (up to global phase)",)
Q = "graphix.qasm3_exporter"
MARK = re.compile(r"<A(\d+)>")
G = {"id": "I", "x": "X", "y": "Y", "z": "Z", "s": "S", "sdg": "SDG", "h": "H", "cx": "CNOT", "cz": "CZ", "swap": "SWAP", "ccx": "CCX"}
R = {"rx": "RX", "ry": "RY", "rz": "RZ", "p": "RZ", "rzz": "RZZ"}


def export(rep, mod, expr):
    """[(guards, text or exception, angles)] of an export."""
    ai = B.AI(rep.prog)
    ai.max_rec = 8
    reg = []

    def angle(interp, bound, node):
        if bound.get("output") is None or getattr(bound["output"], "name", None) != "ASCII" or bound.get("multiplication_sign") is not True:
            raise AnalysisError(f"angle written in another format: {show(bound.get('output'))}")
        reg.append(freeze(bound["angle"]))
        return f"<A{len(reg) - 1}>"

    ai.hooks["graphix.utils.lock"] = lock_hook
    ai.hooks["graphix.pretty_print.angle_to_str"] = angle
    kw = {"alpha": ALPHA, "q3": FuncVal(rep.prog.func(Q + ".circuit_to_qasm3")), "p3": FuncVal(rep.prog.func(Q + ".pattern_to_qasm3"))}
    out = []
    for p in ai.explore(lam(rep, mod, expr, *kw), kw):
        out.append((p.guards, text(p.frozen) if p.kind == "return" else None, reg, p))
    return [o for o in out if not (("isinst" in show_guards(o[0])) and o[1] is None)]


def text(t):
    """The text, what is not known (the printed form of a command, in comments) left out."""
    if isinstance(t, str):
        return t
    if isinstance(t, Term) and t.op == "str":
        return "".join(x if isinstance(x, str) else "¿" for x in t.args)
    raise AnalysisError(f"the exported text is not known: {show(t)[:200]}")


class Bad(Exception):
    pass


def statements(src):
    """[(kind, ...)] of a program: declarations, gates with their condition, measurements."""
    src = re.sub(r"//[^\n]*", "", src)
    if "¿" in src:
        raise AnalysisError("part of the exported text is not known")
    out = []

    def block(s, cond):
        s = s.strip()
        while s:
            m = re.match(r"if\s*\(([^(){}]*)\)\s*\{([^{}]*)\}", s)
            if m:
                bits = tuple(x.strip() for x in m[1].split("^"))
                block(m[2], cond + [bits])
                s = s[m.end():].strip()
                continue
            i = s.find(";")
            if i < 0:
                raise Bad(f"statement without an end: {s[:80]!r}")
            st, s = s[:i].strip(), s[i + 1:].strip()
            one(st, cond)

    def one(st, cond):
        if m := re.fullmatch(r"OPENQASM 3(\.\d+)?", st):
            out.append(("version",))
        elif m := re.fullmatch(r'include "stdgates.inc"', st):
            out.append(("include",))
        elif m := re.fullmatch(r"(qubit|bit)(?:\[(\d+)\])? (\w+)", st):
            out.append(("declare", m[1], m[3], None if m[2] is None else int(m[2])))
        elif m := re.fullmatch(r"([\w\[\]]+) = measure ([\w\[\]]+)", st):
            out.append(("measure", m[1], m[2], tuple(cond)))
        elif m := re.fullmatch(r"(\w+)(?:\(([^()]*)\))? ([\w\[\], ]+)", st):
            out.append(("gate", m[1], m[2], tuple(x.strip() for x in m[3].split(",")), tuple(cond)))
        else:
            raise Bad(f"statement {st!r} is not valid")

    block(src, [])
    return out


def gate_matrix(name, arg_, reg):
    if arg_ is None:
        if name in G:
            return mat.GATES[G[name]], None
        raise Bad(f"gate {name!r} is not a standard gate without parameters")
    m = MARK.fullmatch(arg_)
    if not m:
        raise AnalysisError(f"angle written {arg_!r}")
    a = reg[int(m[1])]
    if name in R:
        return mat.rotation(R[name], a), a
    if name == "crz":
        r = mat.rotation("RZ", a)
        z = mat.num(0)
        one = mat.num(1)
        return [[one, z, z, z], [z, one, z, z], [z, z, r[0][0], z], [z, z, z, r[1][1]]], a
    raise Bad(f"gate {name!r} is not a standard gate with one parameter")


def declared(sts):
    """Names of qubits and bits (indexed or not) usable at the end; checks that each is declared before use, once."""
    q, b = {}, {}
    for s in sts:
        if s[0] == "declare":
            d = q if s[1] == "qubit" else b
            if s[2] in q or s[2] in b:
                raise Bad(f"{s[2]} is declared twice")
            d[s[2]] = s[3]
        elif s[0] == "measure":
            use(b, s[1], "bit"), use(q, s[2], "qubit")
        elif s[0] == "gate":
            for x in s[3]:
                use(q, x, "qubit")
    return q, b


def use(d, name, what):
    m = re.fullmatch(r"(\w+)\[(\d+)\]", name)
    if m and d.get(m[1]) is not None and int(m[2]) < d[m[1]]:
        return
    if not m and name in d and d[name] is None:
        return
    raise Bad(f"{what} {name} is used but not declared")


def run(rep):
    circuits(rep)
    patterns(rep)
    angles(rep)
    rep.floor("circuit", 40)
    rep.floor("pattern", 40)
    rep.floor("angle", 100)
    rep.floor_total(220)


def index(q):
    m = re.fullmatch(r"q\[(\d+)\]", q)
    if not m:
        raise AnalysisError(f"qubit named {q}")
    return int(m[1])


def circuits(rep):
    f = rep.prog.func(Q + ".circuit_to_qasm3_lines")
    g = rep.prog.func(Q + ".instruction_to_qasm3")
    rep.analysed(f), rep.analysed(g)
    members = set(rep.prog.cls("graphix.instruction.InstructionKind").enum_members())
    for k in members - {*KINDS, "M"}:
        rep.und("circuit", k, "instruction kind without a matrix in the rule")
    for kind in KINDS:
        for qs in placements(kind):
            with rep.guard("circuit", f"{kind}{qs}"):
                for gd, src, reg, p in export(rep, T, f"q3(Circuit(3, [{instr(kind, qs)}]))"):
                    want = mat.embed(mat.rotation(kind, ALPHA) if kind in ANGLED else mat.GATES[kind], qs, 3)
                    key, msg = f"{kind}{qs}", "is refused" if src is None else None
                    if msg is None:
                        try:
                            sts = statements(src)
                            head(sts, {"q": 3}, {})
                            ops = [s for s in sts if s[0] in ("gate", "measure")]
                            m = mat.eye(8)
                            for s in ops:
                                if s[0] != "gate" or s[4]:
                                    raise Bad("the gate of a circuit is exported with a measurement or a condition")
                                qq = tuple(map(index, s[3]))
                                gm, _ = gate_matrix(s[1], s[2], reg)
                                if len(gm) != 1 << len(qq) or len(set(qq)) != len(qq):
                                    raise Bad(f"{s[1]} is applied to {', '.join(s[3])}")
                                m = mat.mm(mat.embed(gm, qq, 3), m)
                            if not mat.proportional(m, want):
                                msg = f"is exported as {'; '.join(brief(s, reg) for s in ops)}, which is another unitary"
                                if kind == "RZZ" and len(ops) == 1 and ops[0][1] == "crz" and tuple(map(index, ops[0][3])) == qs and gate_matrix("crz", ops[0][2], reg)[1] == ALPHA:
                                    key = "RZZ exported as crz"
                        except Bad as x:
                            msg = str(x)
                    rep.expect(msg is None, "circuit", key, g.loc(), f"{kind} on {qs}: {msg}")
    for tr in (True, False):
        for ax in "XYZ":
            with rep.guard("circuit", f"M {ax} transpile={tr}"):
                for gd, src, reg, p in export(rep, T, f"q3(Circuit(3, [instruction.M(1, Axis.{ax})]), transpile={tr})"):
                    msg = None
                    if src is None:
                        msg = None if not tr and ax != "Z" else "is refused"
                    else:
                        try:
                            sts = statements(src)
                            head(sts, {"q": 3}, {"b": 3})
                            ops = [s for s in sts if s[0] in ("gate", "measure")]
                            u = mat.eye(2)
                            for s in ops[:-1]:
                                if s[0] != "gate" or s[4] or s[3] != ("q[1]",):
                                    raise Bad(f"a measurement is exported with {brief(s, reg)}")
                                u = mat.mm(gate_matrix(s[1], s[2], reg)[0], u)
                            if ops[-1] != ("measure", "b[1]", "q[1]", ()):
                                raise Bad(f"a measurement is exported as {brief(ops[-1], reg)}")
                            if not mat.meq(mat.mm(mat.dag(u), mat.mm(mat.GATES["Z"], u)), mat.GATES[ax]):
                                raise Bad(f"another observable is measured: {'; '.join(brief(s, reg) for s in ops)}")
                        except Bad as x:
                            msg = str(x)
                    rep.expect(msg is None, "circuit", f"M {ax} transpile={tr}", g.loc(), f"measurement along {ax}: {msg}")
    with rep.guard("circuit", "order"):
        srcs = ["instruction.H(0)", "instruction.CNOT(target=1, control=2)", "instruction.M(0, Axis.X)", "instruction.RZ(2, alpha)", "instruction.M(2, Axis.Z)", "instruction.S(1)"]
        for gd, src, reg, p in export(rep, T, f"q3(Circuit(3, [{', '.join(srcs)}]))"):
            got = [brief(s, reg) for s in statements(src) if s[0] in ("gate", "measure")] if src else None
            want = []
            for x in srcs:
                for _, s1, r1, _ in export(rep, T, f"q3(Circuit(3, [{x}]))"):
                    want += [brief(s, r1) for s in statements(s1) if s[0] in ("gate", "measure")]
            try:
                head(statements(src), {"q": 3}, {"b": 3})
            except Bad as x:
                got = [*got, str(x)]
            rep.expect(got == want, "circuit", "order", f.loc(), f"instructions exported one by one give {want}, but together {got}")
    with rep.guard("circuit", "not transpiled"):
        for kind in KINDS:
            if kind == "J":
                (r,) = {s is None for _, s, _, _ in export(rep, T, f"q3(Circuit(1, [{instr('J', (0,))}]), transpile=False)")}
                rep.expect(r, "circuit", "J not transpiled", g.loc(), "a J gate which is not rewritten is exported")
                continue
            qs = placements(kind)[0]
            a = [(s, [show(x) for x in r]) for _, s, r, _ in export(rep, T, f"q3(Circuit(3, [{instr(kind, qs)}]))")]
            b = [(s, [show(x) for x in r]) for _, s, r, _ in export(rep, T, f"q3(Circuit(3, [{instr(kind, qs)}]), transpile=False)")]
            rep.expect(a == b, "circuit", f"{kind} not transpiled", f.loc(), f"{kind} is exported otherwise without rewriting J gates and measurements")


def head(sts, qubits, bits):
    if sts[0] != ("version",) or ("include",) not in sts[:3]:
        raise Bad("the version or the gate library is missing at the start")
    q, b = declared(sts)
    if q != qubits or (b != bits and bits):
        raise Bad(f"declares the qubits {q} and the bits {b}")


def brief(s, reg):
    if s[0] == "gate":
        a = "" if s[2] is None else f"({show(reg[int(MARK.fullmatch(s[2])[1])])})"
        return "".join(f"if {'^'.join(c)}: " for c in s[4]) + f"{s[1]}{a} {', '.join(s[3])}"
    return f"{s[1]} = measure {s[2]}"


PAULIS = [f"{s}Measurement.{a}" for s in ("", "-") for a in "XYZ"]
BLOCHS = [f"Measurement.{p}({a})" for p in ("XY", "XZ", "YZ") for a in ("alpha", "0", "0.5")]


def subst(gd, m):
    """Matrix under the guards that fix the angle (value of alpha, or None when infeasible)."""
    for a, v in gd:
        if isinstance(a, Term) and a.op == "eq" and v:
            x, y = a.args
            for s, t in ((x, y), (y, x)):
                if t == ALPHA and is_num(s):
                    return Fraction(s)
                if is_num(s):
                    try:
                        p = to_poly(t)
                    except Exception:  # noqa: BLE001
                        continue
                    c = {k: w for k, w in p.items() if k}
                    if len(c) == 1 and next(iter(c)) == ((ALPHA, 1),):
                        return (Fraction(s) - p.get((), 0)) / next(iter(c.values()))
    return None


def patterns(rep):
    P_ = "graphix.pattern"
    f = rep.prog.func(Q + ".command_to_qasm3_lines")
    h = rep.prog.func(Q + ".pattern_to_qasm3_lines")
    rep.analysed(f), rep.analysed(h)

    def prog(rule, key, expr, check):
        with rep.guard(rule, key):
            for gd, src, reg, p in export(rep, P_, expr):
                try:
                    if src is None:
                        raise Bad(f"is refused ({show(p.value)[:80]})")
                    sts = statements(src)
                    if sts[0] != ("version",) or sts[1] != ("include",):
                        raise Bad("the version or the gate library is missing at the start")
                    declared(sts)
                    msg = check(sts[2:], reg, gd)
                except Bad as x:
                    msg = str(x)
                rep.expect(msg is None, rule, key, f.loc(), f"{key}: {msg}" + (f" when {show_guards(gd)}" if gd else ""))

    # preparation
    H = [("gate", "h", None)]
    for where, expr in (("input", "p3(Pattern(input_nodes=[7]){})"), ("N", "p3(Pattern(cmds=[command.N(7{})]))")):
        for st, ops in (("PLUS", H), ("ZERO", []), (None, H)):
            a = "" if st is None else f", {'input_state=' if where == 'input' else 'state='}BasicStates.{st}"

            def check(sts, reg, gd, ops=ops):
                if sts[0] != ("declare", "qubit", "q7", None) or any(s[0] != "gate" or s[3] != ("q7",) or s[4] for s in sts[1:]):
                    return f"a node is prepared with {sts}"
                m = mat.eye(2)
                for s in sts[1:]:
                    m = mat.mm(gate_matrix(s[1], s[2], reg)[0], m)
                w = mat.GATES["H"] if ops else mat.eye(2)
                return None if mat.proportional([[r[0]] for r in m], [[r[0]] for r in w]) else "another state is prepared"

            prog("pattern", f"{where} in {st or 'default state'}", expr.format(a), check)
        for st in ("MINUS", "ONE", "PLUS_I", "MINUS_I"):
            with rep.guard("pattern", f"{where} in {st}"):
                a = f", {'input_state=' if where == 'input' else 'state='}BasicStates.{st}"
                bad = [s for _, s, _, _ in export(rep, P_, expr.format(a)) if s is not None]
                rep.expect(not bad, "pattern", f"{where} in {st}", f.loc(), "a state that is not supported is exported")

    def percase(sts, reg, gd):
        d = [s for s in sts if s[0] == "declare"]
        g = {s[3][0] for s in sts if s[0] == "gate"}
        return None if [s[2] for s in d] == ["q5", "q2"] and g == {"q2"} else f"inputs 5 in |0> and 2 in |+> are exported as {sts}"

    prog("pattern", "inputs with their own states", "p3(Pattern(input_nodes=[5, 2]), input_state={2: BasicStates.PLUS, 5: BasicStates.ZERO})", percase)

    # corrections and gates, after a prefix that declares the qubits and bits
    pre = "p3(Pattern(input_nodes=[0, 1, 2, 3, 4], cmds=[command.M(2), command.M(3), command.M(4), {}]))"
    skip = {}

    def body(sts, reg, gd):
        base = skip.get("n")
        if base is None:
            (_, s0, r0, _), = export(rep, P_, pre.format(""))
            base = skip["n"] = statements(s0)[2:]
        if sts[: len(base)] != base:
            raise Bad("the commands before are exported otherwise")
        return sts[len(base):]

    for cmd, gate in (("X", "X"), ("Z", "Z")):
        for dom in ((), (2,), (3, 4), (2, 3, 4)):

            def check(sts, reg, gd, gate=gate, dom=dom):
                return bits(body(sts, reg, gd), reg, 1, {frozenset(f"c{d}" for d in dom): gate} if dom else {})

            prog("pattern", f"{cmd} on {set(dom) or '{}'}", pre.format(f"command.{cmd}(1, {{{', '.join(map(str, dom))}}})" if dom else f"command.{cmd}(1, set())"), check)
    for qs in ((0, 1), (1, 0)):

        def check(sts, reg, gd, qs=qs):
            ops = body(sts, reg, gd)
            m = mat.eye(4)
            for s in ops:
                if s[0] != "gate" or s[4]:
                    return f"is exported as {ops}"
                m = mat.mm(mat.embed(gate_matrix(s[1], s[2], reg)[0], tuple(int(x[1:]) for x in s[3]), 2), m)
            return None if mat.proportional(m, mat.GATES["CZ"]) else "another gate is applied"

        prog("pattern", f"E{qs}", pre.format(f"command.E({qs})"), check)
    for i in range(24):
        with rep.guard("pattern", f"C {i}"):
            m = mat.matrix(fold(rep, "graphix.clifford", f"Clifford({i}).matrix"))

            def check(sts, reg, gd, m=m):
                u = mat.eye(2)
                for s in body(sts, reg, gd):
                    if s[0] != "gate" or s[4] or s[3] != ("q1",):
                        return f"is exported as {s}"
                    u = mat.mm(gate_matrix(s[1], s[2], reg)[0], u)
                return None if mat.proportional(u, m) else "another gate is applied"

            prog("pattern", f"Clifford gate {i}", pre.format(f"command.C(1, [*Clifford][{i}])").replace("[*Clifford]", "[*command.Clifford]"), check)
    # measurements
    for ms in PAULIS + BLOCHS:
        for s in ((), (2,), (3, 4)):
            for t in ((), (2,), (2, 3)):
                key = f"M {ms} s={set(s) or '{}'} t={set(t) or '{}'}"
                with rep.guard("pattern", key):
                    obs = fold(rep, P_, ms, alpha=ALPHA)

                    def check(sts, reg, gd, s=s, t=t, obs=obs):
                        ops = body(sts, reg, gd)
                        v = subst(gd, None)
                        o = observable(substitute(obs, {ALPHA: v}) if v is not None else obs)
                        return measured(ops, [substitute(x, {ALPHA: v}) if v is not None else x for x in reg], 1, s, t, o)

                    prog("pattern", key, pre.format(f"command.M(1, {ms}, {setsrc(s)}, {setsrc(t)})"), check)
    # refused commands, and whole patterns
    for cmd in ("command.T()", "command.S(1, {2})"):
        with rep.guard("pattern", cmd):
            bad = [s for _, s, _, _ in export(rep, P_, pre.format(cmd)) if s is not None]
            rep.expect(not bad, "pattern", cmd, f.loc(), "a command without translation is exported")
    with rep.guard("pattern", "order"):
        cmds = ["command.N(5)", "command.E((0, 5))", "command.M(0, -Measurement.Y, {2})", "command.X(5, {0, 2})", "command.C(5, command.Clifford.S)", "command.Z(5, {3})"]
        whole = [s for _, s, _, _ in export(rep, P_, pre.format(", ".join(cmds)))]
        parts, base = [], None
        (_, base, _, _), = export(rep, P_, pre.format(""))
        for i, c in enumerate(cmds):
            (_, x, _, _), = export(rep, P_, pre.format(c))
            parts += statements(x)[len(statements(base)):]
        got = statements(whole[0])[len(statements(base)):]
        strip = lambda z: [tuple(MARK.sub("<A>", y) if isinstance(y, str) else y for y in x) for x in z]
        rep.expect(len(whole) == 1 and strip(got) == strip(parts), "pattern", "order", h.loc(), f"the commands exported one by one give {strip(parts)}, but together {strip(got)}")


def setsrc(s):
    return f"{{{', '.join(map(str, s))}}}" if s else "set()"


def bits(ops, reg, node, want):
    """Whether conditional single-qubit gates make the wanted gates, for every value of the bits."""
    names = sorted({b for o in ops for c in (o[4] if o[0] == "gate" else ()) for b in c} | {b for k in want for b in k})
    for n in range(1 << len(names)):
        val = {b: (n >> i) & 1 for i, b in enumerate(names)}
        u, w = mat.eye(2), mat.eye(2)
        for o in ops:
            if o[0] != "gate" or o[3] != (f"q{node}",):
                return f"is exported with {o}"
            if all(sum(val[b] for b in c) % 2 for c in o[4]):
                u = mat.mm(gate_matrix(o[1], o[2], reg)[0], u)
        for k, g in want.items():
            if sum(val[b] for b in k) % 2:
                w = mat.mm(mat.GATES[g], w)
        if not mat.proportional(u, w):
            return f"another correction is applied when the outcomes are {val}: {'; '.join(brief(o, reg) for o in ops)}"
    return None


def measured(ops, reg, node, s, t, obs):
    q, c = f"q{node}", f"c{node}"
    meas = [o for o in ops if o[0] == "measure"]
    if meas != [("measure", c, q, ())] or ops[-1] != meas[0] or ("declare", "bit", c, None) not in ops:
        return f"the measurement is exported as {meas}"
    gates = [o for o in ops if o[0] == "gate"]
    names = sorted({f"c{x}" for x in (*s, *t)} | {b for o in gates for k in o[4] for b in k})
    for n in range(1 << len(names)):
        val = {b: (n >> i) & 1 for i, b in enumerate(names)}
        u = mat.eye(2)
        for o in gates:
            if o[3] != (q,):
                return f"the measurement is exported with {brief(o, reg)}"
            if all(sum(val[b] for b in k) % 2 for k in o[4]):
                u = mat.mm(gate_matrix(o[1], o[2], reg)[0], u)
        got = mat.mm(mat.dag(u), mat.mm(mat.GATES["Z"], u))
        w = obs
        for d, g in ((s, "X"), (t, "Z")):
            if sum(val[f"c{x}"] for x in d) % 2:
                w = mat.mm(mat.GATES[g], mat.mm(w, mat.GATES[g]))
        if not mat.meq(got, w):
            return f"another observable is measured when the outcomes are {val}: {'; '.join(brief(o, reg) for o in ops if o[0] != 'declare')}"
    return None


def angles(rep):
    f = rep.prog.func("graphix.pretty_print.angle_to_str")
    rep.analysed(f)
    vals = sorted({Fraction(n, d) for d in range(1, 17) for n in (-2 * d - 1, -d, -1, 0, 1, 2, 3, d - 1, d + 1, 2 * d)}) + [Fraction(7, 1000), Fraction(-999, 500), 12]
    for v in vals:
        for fmt, mul in (("ASCII", True), ("ASCII", False), ("Unicode", False), ("Unicode", True), ("LaTeX", False), ("LaTeX", True)):
            key = f"{v}π {fmt}{' with sign' if mul else ''}"
            if mul and fmt != "ASCII" and v.denominator > 3:
                continue
            with rep.guard("angle", key):
                s = fold(rep, "graphix.pretty_print", f"angle_to_str(v, OutputFormat.{fmt}, multiplication_sign={mul})", v=v if Fraction(v).denominator > 1 else int(v))
                if not isinstance(s, str):
                    raise AnalysisError(f"the text of an angle is not known: {show(s)[:100]}")
                rep.expect(read(s, fmt, mul) == v, "angle", key, f.loc(), f"is written {s!r}")
    for v in (Fraction(1, 2003), Fraction(-5, 1201)):
        with rep.guard("angle", f"{v}π"):
            s = fold(rep, "graphix.pretty_print", "angle_to_str(v, OutputFormat.ASCII)", v=v)
            parts = s.args if isinstance(s, Term) and s.op == "str" else (s,)
            ok = None
            if isinstance(s, str) and ("pi" in s or s == "0"):
                ok = False
            elif len(parts) == 1 and isinstance(parts[0], Term) and parts[0].op == "tostr":
                ok = parts[0].args[0] == fold(rep, "graphix.pretty_print", "v * math.pi", v=v)
            elif any(isinstance(x, Term) and x.op == "fmt" and isinstance(x.args[-1], str) and re.fullmatch(r"\.\d[ef]", x.args[-1]) for x in parts):
                ok = False
            rep.expect(ok, "angle", f"{v}π", f.loc(), f"an angle which is no simple fraction of π is written {show(s)[:120]}")


def read(s, fmt, mul):
    pi, times = {"ASCII": ("pi", "*"), "Unicode": ("π", "×"), "LaTeX": (r"\pi", r" \times ")}[fmt]
    if fmt == "LaTeX":
        m = re.fullmatch(r"(-?)\\frac\{(.*)\}\{(\d+)\}", s)
        if m:
            s = f"{m[1]}{m[2]}/{m[3]}"
    if s == "0":
        return 0
    m = re.fullmatch(rf"(-?)(\d*)({re.escape(times)})?{re.escape(pi)}(?:/(\d+))?", s)
    if not m or bool(m[3]) != bool(m[2] and mul):
        return None
    return (-1 if m[1] else 1) * Fraction(int(m[2] or 1), int(m[4] or 1))
