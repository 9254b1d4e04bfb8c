"""Driver shared by the checks: obligations, findings, known findings, evidence and exit codes."""

from __future__ import annotations

import json
import os
import pickle
import sys
import time
import traceback
from pathlib import Path as FsPath

from .program import AnalysisError, Program

VERIF = FsPath(__file__).resolve().parent.parent
REPO = FsPath(os.environ.get("VERIF_REPO", "/repo"))
KNOWN = VERIF / "known_findings.json"


class Report:
    """Collects the obligations of one property."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.prog = Program(REPO)
        self.oks = []  # (rule, construct)
        self.bads = []  # (rule, construct, loc, message)
        self.unds = []  # (rule, construct, why)
        self.floors = {}  # rule -> minimal number of decided obligations
        self.functions = set()
        self.notes = []
        self.total = 1

    def ok(self, rule, construct):
        self.oks.append((rule, str(construct)))

    def bad(self, rule, construct, loc, message):
        if (rule, construct) not in {(r, c) for r, c, _, _ in self.bads}:
            self.bads.append((rule, construct, loc, message))

    def und(self, rule, construct, why):
        self.unds.append((rule, construct, str(why)))

    def expect(self, cond, rule, construct, loc, message):
        """One obligation: `cond` is True, False or None (undecided)."""
        if cond is None:
            self.und(rule, construct, message)
        elif cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, loc, message)
        return cond

    def floor(self, rule, n):
        self.floors[rule] = n

    def floor_total(self, n):
        """Fail as broken when fewer obligations than that are decided (about two thirds of those confirmed by hand)."""
        self.total = n

    def guard(self, rule, construct):
        return _Guarded(self, rule, construct)

    def share(self, items, fn, workers=None):
        """fn(item) for each item, on several processors; the obligations are collected in the order of the items."""
        items = list(items)
        k = min(workers or os.cpu_count() or 1, len(items), 8)
        if k <= 1:
            for x in items:
                fn(x)
            return
        sys.stdout.flush()
        jobs = []
        src, feed = os.pipe()
        assert len(items) < 16000
        os.write(feed, b"".join(i.to_bytes(4, "little") for i in range(len(items))))
        os.close(feed)
        for _ in range(k):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                got = []
                while word := os.read(src, 4):
                    i = int.from_bytes(word, "little")
                    if os.environ.get("SA_TIMES"):
                        t0 = time.time()
                    self.oks, self.bads, self.unds, self.functions, self.notes = [], [], [], set(), []
                    err = None
                    try:
                        fn(items[i])
                    except AnalysisError as e:
                        err = str(e)
                    except BaseException:
                        err = traceback.format_exc()
                    if os.environ.get("SA_TIMES") and time.time() - t0 > float(os.environ["SA_TIMES"]):
                        print(round(time.time() - t0, 1), str(items[i])[:400], file=sys.stderr)
                    got.append((i, self.oks, self.bads, self.unds, self.functions, self.notes, err))
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(got, f)
                os._exit(0)
            os.close(wr)
            jobs.append((pid, r))
        os.close(src)
        out = []
        for pid, r in jobs:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                raise AnalysisError("a worker process ended early")
            out += pickle.loads(data)
        errs = []
        for _, oks, bads, unds, functions, notes, err in sorted(out, key=lambda x: x[0]):
            self.oks += oks
            for b in bads:
                self.bad(*b)
            self.unds += unds
            self.functions |= functions
            self.notes += notes
            if err:
                errs.append(err)
        if errs:
            raise AnalysisError(errs[0])

    def analysed(self, func):
        self.functions.add(func if isinstance(func, str) else func.qual)


class _Guarded:
    """An obligation whose code is outside what the interpreter understands is undecided, not violated."""

    def __init__(self, rep, rule, construct):
        self.rep, self.rule, self.construct = rep, rule, construct

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if getattr(ev, "at", None):
            self.rep.bad(self.rule, self.construct, ev.at, str(ev))
            return True
        if issubclass(et, AnalysisError):
            self.rep.und(self.rule, self.construct, ev)
            return True
        if issubclass(et, (RecursionError, KeyError, TypeError, AttributeError, IndexError, AssertionError, ValueError)) and os.environ.get("SA_DEBUG") is None:
            self.rep.und(self.rule, self.construct, f"{et.__name__}: {ev}")
            return True
        return False


def main(prop, run, technique, rule_text, assumptions=(), argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    sys.setrecursionlimit(20000)
    known = {}
    if KNOWN.exists():
        for f in json.loads(KNOWN.read_text())["findings"]:
            if f["property"] == prop:
                known[(f["rule"], f["construct"])] = f
    rep, broken = None, None
    try:
        rep = Report(prop, tier)
        run(rep)
    except AnalysisError as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    if broken is not None and (rep is None or not rep.bads):
        print(f"ANALYSIS-BROKEN property={prop} {broken}")
        return 2
    new = [b for b in rep.bads if (b[0], b[1]) not in known]
    old = [b for b in rep.bads if (b[0], b[1]) in known]
    counts = {}
    for r, _ in rep.oks:
        counts[r] = counts.get(r, 0) + 1
    for b in rep.bads:
        counts[b[0]] = counts.get(b[0], 0) + 1
    low = [(r, counts.get(r, 0), n) for r, n in rep.floors.items() if counts.get(r, 0) < n]
    if sum(counts.values()) < rep.total:
        low.append(("(all rules)", sum(counts.values()), rep.total))
    for r, c, loc, m in old:
        print(f"KNOWN-FINDING: property={prop} [{r}] {c} at {loc}: {m}")
    for r, c, w in rep.unds:
        print(f"UNDECIDED property={prop} [{r}] {c}: {w[:300]}")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": rule_text,
            "technique": technique,
            "modules_parsed": len(rep.prog.modules),
            "functions_analysed": sorted(rep.functions),
            "obligations": sum(counts.values()),
            "obligations_per_rule": counts,
            "discharged": len(rep.oks),
            "undecided": [list(u) for u in rep.unds],
            "floors": {**rep.floors, "total": rep.total},
            "instances": [f"[{r}] {c}" for r, c in rep.oks][:400],
            "notes": rep.notes,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(rep.bads),
        "findings": [{"rule": r, "construct": c, "at": loc, "message": m, "known": (r, c) in known} for r, c, loc, m in rep.bads],
    }
    evdir = VERIF / "evidence"
    evdir.mkdir(exist_ok=True)
    (evdir / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    if new:
        rdir = evdir / "replay"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}.txt"
        lines = [f"{loc}: [{r}] {c}: {m}" for r, c, loc, m in new]
        path.write_text("\n".join(lines) + "\n")
        for ln in lines:
            print(ln[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if broken is not None:
        print(f"ANALYSIS-BROKEN property={prop} {broken}")
        return 2
    if low:
        for r, n, want in low:
            print(f"ANALYSIS-BROKEN property={prop} rule {r}: only {n} instances decided, at least {want} expected")
        return 2
    print(f"OK property={prop} obligations={sum(counts.values())} undecided={len(rep.unds)} wall={ev['wall_s']}s")
    return 0
