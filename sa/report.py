"""Collecting the obligations of a property and what became of them."""

from __future__ import annotations

import json
import os
import time
import zlib
from pathlib import Path

from .values import ExcInst, Instance

VERIF = Path(__file__).resolve().parent.parent


class Violation:
    def __init__(self, rule, what, message, loc=None, via=(), cond=""):
        self.rule, self.what, self.message, self.loc, self.via, self.cond = rule, what, message, loc, tuple(via), cond

    @property
    def key(self):
        return f"{self.rule}: {self.what}"

    def lines(self):
        yield f"  rule      {self.rule}"
        yield f"  construct {self.what}"
        yield f"  found     {self.message}"
        if self.loc:
            yield f"  at        {self.loc}"
        if self.via:
            yield f"  via       {' -> '.join(self.via)}"
        if self.cond:
            yield f"  when      {self.cond}"


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid, self.tier = pid, tier
        self.violations = []
        self.obligations = 0  # things decided
        self.undecided = []  # (rule, what, why)
        self.paths = 0
        self.functions = set()
        self.rules = {}
        self.notes = []
        self.failed = []  # groups of rules the analysis could not run
        self.t0 = time.time()
        self.shard = (0, 1)  # (this worker, number of workers)
        self.counter = 0
        self.exploring = False

    # -- merging the reports of several workers

    def dump(self):
        return dict(violations=self.violations, obligations=self.obligations, undecided=self.undecided, paths=self.paths,
                    functions=self.functions, rules=self.rules, failed=self.failed)

    def merge(self, d):
        have = {w.key for w in self.violations}
        self.violations += [v for v in d["violations"] if v.key not in have]
        self.obligations += d["obligations"]
        self.undecided += d["undecided"]
        self.paths += d["paths"]
        self.functions |= d["functions"]
        for k, n in d["rules"].items():
            self.rules[k] = self.rules.get(k, 0) + n
        self.failed += [f for f in d["failed"] if f not in self.failed]

    suffix = ""

    def over_time(self):
        return time.time() - self.t0 > (600 if self.tier == "quick" else 780)

    def group(self, name, fn, *args):
        """Run one group of rules; a failure of the analysis itself leaves that group without verdict."""
        try:
            fn(self, *args)
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecide(name, "analysis", f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
            self.failed.append(name)

    # -- classical obligations

    def ok(self, rule, n=1):
        if self.shard[0] and not self.exploring:
            return  # counted by the first worker
        self.obligations += n
        self.rules[rule] = self.rules.get(rule, 0) + n

    def undecide(self, rule, what, why):
        if self.shard[0] and not self.exploring:
            return
        self.undecided.append((rule, what, str(why)))

    def violate(self, rule, what, message, loc=None, via=(), cond=""):
        self.ok(rule)
        if isinstance(loc, tuple):
            loc = f"{loc[0]}:{loc[1]}"
        v = Violation(rule, what, message, loc, via, cond)
        if v.key not in {w.key for w in self.violations}:
            self.violations.append(v)

    def check(self, rule, what, holds, message, loc=None):
        if holds:
            self.ok(rule)
        else:
            self.violate(rule, what, message() if callable(message) else message, loc)

    # -- abstract interpretation

    def explore(self, I, rule, what, fn, spec, max_traces=400, expect_decided=True):
        """Run ``fn(I)`` on all abstract paths; ``spec(outcome)`` returns None or a complaint.

        A path on which the analysis lost precision is never reported; it is counted as undecided."""
        what += self.suffix
        self.counter += 1
        if zlib.crc32(f"{what}{self.counter}".encode()) % self.shard[1] != self.shard[0]:
            return []
        self.exploring = True
        try:
            return self._explore(I, rule, what, fn, spec, max_traces)
        finally:
            self.exploring = False

    def _explore(self, I, rule, what, fn, spec, max_traces):
        if self.over_time():
            self.undecide(rule, what, "time budget used up")
            return []
        try:
            outs = I.explore(fn, max_traces=max_traces)
        except Exception as e:  # a construct the analysis cannot digest: no verdict
            self.undecide(rule, what, f"analysis failed: {type(e).__name__}: {e}")
            return []
        decided = 0
        for o in outs:
            self.paths += 1
            self.functions.update(o.trace.calls)
            if o.imprecise:
                self.undecide(rule, what, o.imprecise[0])
                continue
            try:
                msg = spec(o)
            except Exception as e:
                msg = Undecided(f"analysis failed: {type(e).__name__}: {e}")
            if isinstance(msg, Undecided):
                self.undecide(rule, what, msg)
                continue
            decided += 1
            if msg:
                self.violate(rule, what, msg, location(o), list(o.trace.calls)[-12:], path_of(o))
        if I.truncated:
            self.undecide(rule, what, "too many paths")
        if decided:
            self.ok(rule)
        return outs


class Undecided(str):
    pass


def location(o):
    v = o.value
    if isinstance(v, ExcInst) and getattr(v, "site", None):
        return f"{rel(v.site[0])}:{v.site[1]}"
    if isinstance(v, Instance) and getattr(v, "site", None):
        return f"{rel(v.site[0])}:{v.site[1]}"
    if o.trace.events:
        for e in reversed(o.trace.events):
            if e.get("site"):
                return f"{rel(e['site'][0])}:{e['site'][1]}"
    if getattr(o.trace, "ret_site", None):
        return f"{rel(o.trace.ret_site[0])}:{o.trace.ret_site[1]}"
    return None


def rel(p):
    p = str(p)
    i = p.rfind("/portfolyo/")
    if i >= 0:
        return p[i + 1 :]
    return PATHS.get(p, p)


def path_of(o):
    parts = []
    for k, v in o.facts.items():
        if isinstance(k, tuple):
            k = " ".join("&".join(sorted(map(str, x))) if isinstance(x, frozenset) else str(x) for x in k)
        parts.append(f"{k} = {v}")
    return "; ".join(parts)[:600]


PATHS = {}  # module name -> path relative to the repository


def load_known():
    p = VERIF / "known_findings.txt"
    known = []
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding: "):
                head, _, key = line[len("finding: ") :].partition(" key=")
                pid = head.split("property=")[1].split()[0]
                known.append((pid, key.strip()))
    return known


def finish(rep: Report, explanation, extra=None):
    """Write evidence, print the outcome, return the exit code."""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = {k for p, k in load_known() if p == rep.pid}
    new = [v for v in rep.violations if v.key not in known]
    old = [v for v in rep.violations if v.key in known]
    evid = VERIF / "evidence"
    evid.mkdir(exist_ok=True)
    und = {}
    for r, w, why in rep.undecided:
        und.setdefault(f"{r}: {w}", why)
    cov = {
        "explanation": explanation,
        "obligations_decided": rep.obligations,
        "obligations_per_rule": dict(sorted(rep.rules.items())),
        "abstract_paths": rep.paths,
        "paths_without_verdict": len(rep.undecided),
        "functions_analysed": len(rep.functions),
        "functions": sorted(rep.functions)[:400],
        "without_verdict": dict(list(und.items())[:40]),
    }
    if rep.failed:
        cov["groups_that_failed"] = rep.failed
        print(f"warning: no verdict from: {', '.join(rep.failed)}")
    cov.update(extra or {})
    data = {
        "property": rep.pid,
        "tier": rep.tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "violations": [v.key for v in rep.violations],
        "wall_s": round(time.time() - rep.t0, 3),
    }
    (evid / f"{rep.pid}.json").write_text(json.dumps(data, indent=1, default=str))
    print(f"{rep.pid}: {rep.obligations} obligations decided on {rep.paths} abstract paths through {len(rep.functions)} functions; {len(rep.undecided)} without verdict; {len(rep.violations)} violated ({data['wall_s']} s)")
    for v in old:
        print(f"KNOWN-FINDING: property={rep.pid} {v.key}")
    replay = evid / f"{rep.pid}.violations.txt"
    if not new:
        if replay.exists():
            replay.unlink()
        return 0
    with open(replay, "w") as f:
        for v in new:
            f.write("\n".join(v.lines()) + "\n\n")
    for v in new[:12]:
        print("\n".join(v.lines()))
    if len(new) > 12:
        print(f"  ... and {len(new) - 12} more; see {replay}")
    print(f"VIOLATION property={rep.pid} replay={replay}")
    return 1
