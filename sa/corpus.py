"""Command sequences of known shape which can be run, in no particular order (the shapes are drawn once and for all from fixed seeds)."""

import random

ANGLES = ("alpha", "beta", "gamma")
PAULIS = ("Measurement.X", "Measurement.Y", "Measurement.Z", "-Measurement.X", "-Measurement.Y", "-Measurement.Z")
DIAGONAL = ("Clifford.S", "Clifford.Z", "Clifford.X", "Clifford.SDG", "Clifford.Y")


def sequence(seed, n=5, inputs=1, outputs=2, edge=0.45, pauli=0.5, clifford=0.15, corrections=0.4, state=0.0, numeric=False):
    """(inputs, commands) of one sequence."""
    r = random.Random(seed)
    names = r.sample(range(n + 3), n)
    ins, rest = names[:inputs], names[inputs:]
    measured = r.sample(names, n - outputs)
    edges = [(a, b) for i, a in enumerate(names) for b in names[i + 1:] if r.random() < edge]
    r.shuffle(edges)
    alive, done, waiting, cmds = list(ins), [], list(measured), []
    angles = list(ANGLES)

    def dom(p=0.4):
        return {x for x in done if r.random() < p}

    def text(s):
        return "{" + ", ".join(map(str, sorted(s))) + "}" if s else "set()"

    def angle():
        if numeric:
            return r.choice(("0", "0.5", "1", "1.5", "0.25", "1.75", "2", "-0.5", "0.75", "-1"))
        return angles.pop(0) if angles else r.choice(("0.25", "1.75"))

    while rest or edges or waiting:
        free = [x for x in alive if not any(x in e for e in edges)]
        todo = []
        if rest:
            todo.append("N")
        if any(a in alive and b in alive for a, b in edges):
            todo += ["E", "E"]
        if waiting and waiting[0] in free:
            todo += ["M", "M"]
        if done and alive and r.random() < corrections:
            todo += ["X", "Z"]
        if alive and r.random() < clifford:
            todo.append("C")
        k = r.choice(todo)
        if k == "N":
            x = rest.pop()
            s = r.choice((", BasicStates.ZERO", ", BasicStates.MINUS", ", BasicStates.PLUS_I", ", BasicStates.ONE")) if r.random() < state else ""
            cmds.append(f"N({x}{s})")
            alive.append(x)
        elif k == "E":
            e = next(e for e in edges if e[0] in alive and e[1] in alive)
            edges.remove(e)
            cmds.append(f"E(({e[0]}, {e[1]}))" if r.random() < 0.5 else f"E(({e[1]}, {e[0]}))")
        elif k == "M":
            x = waiting.pop(0)
            m = r.choice(PAULIS) if r.random() < pauli else f"Measurement.{r.choice(('XY', 'XY', 'XZ', 'YZ'))}({angle()})"
            cmds.append(f"M({x}, {m}, {text(dom())}, {text(dom())})")
            alive.remove(x)
            done.append(x)
        elif k == "C":
            x = r.choice(alive)
            g = f"Clifford({r.randrange(24)})" if x in free else r.choice(DIAGONAL)
            cmds.append(f"C({x}, {g})")
        else:
            cmds.append(f"{k}({r.choice(alive)}, {text(dom(0.6))})")
    for x in alive:
        for k in "XZ":
            if done and r.random() < 0.6:
                cmds.append(f"{k}({x}, {text(dom(0.6))})")
    r.shuffle(alive)
    return ins, cmds, alive


def make(seed, **kw):
    """Source of the pattern."""
    ins, cmds, outs = sequence(seed, **kw)
    return f"Pattern(input_nodes={ins}, cmds=[{', '.join(cmds)}], output_nodes={outs})"
