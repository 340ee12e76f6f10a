"""Runs one check, matches findings against known_findings.json, writes the evidence."""
from __future__ import annotations

import importlib
import json
import os
import pkgutil
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Finding:
    """One offending construct.  `key` identifies rule + construct (never a line number)."""

    def __init__(self, rule, construct, message, file=None, line=None, path=None):
        self.rule, self.construct, self.message = rule, construct, message
        self.file, self.line, self.path = file, line, path

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"

    def as_dict(self):
        d = dict(rule=self.rule, construct=self.construct, message=self.message, key=self.key)
        if self.file:
            d["where"] = f"{self.file}:{self.line}" if self.line else self.file
        if self.path:
            d["path"] = self.path
        return d


class Result:
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.assumptions = []
        self.undecided = []

    def add(self, *a, **k):
        f = Finding(*a, **k)
        if f.key not in {x.key for x in self.findings}:
            self.findings.append(f)

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n


class Context:
    """Lazily built analyses shared by the checks of one process."""

    def __init__(self, tier):
        self.tier = tier
        self._prog = None
        self._eff = None

    @property
    def prog(self):
        if self._prog is None:
            from .prog import Program

            self._prog = Program()
        return self._prog

    @property
    def eff(self):
        if self._eff is None:
            from .effects import Effects

            self._eff = Effects(self.prog)
        return self._eff


def modules():
    import pnsa.checks as pkg

    return sorted(m.name for m in pkgutil.iter_modules(pkg.__path__) if m.name[0] == "c" and m.name[1].isdigit())


def load(pid):
    return importlib.import_module(f"pnsa.checks.{pid.lower()}")


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as fh:
        d = json.load(fh)
    return {e["key"]: e for e in d.get("findings", []) if e["property"] == pid}


def run_one(pid, tier, ctx, verbose=False):
    t0 = time.time()
    mod = load(pid)
    res = Result()
    mod.check(ctx, res)
    kn = known(pid)
    new = [f for f in res.findings if f.key not in kn]
    old = [f for f in res.findings if f.key in kn]
    cov = dict(res.coverage)
    cov.setdefault("modules", len(ctx.prog.modules))
    cov.setdefault("functions", len(ctx.prog.funcs))
    cov["explanation"] = mod.EXPLANATION
    cov["undecided_units"] = len(res.undecided)
    if res.undecided:
        cov["undecided"] = res.undecided[:60]
    ev = dict(
        property=pid,
        tier=tier if tier in ("quick", "thorough") else "quick",
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level=mod.LEVEL,
        coverage=cov,
        wall_s=round(time.time() - t0, 3),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + res.assumptions,
        violations=len(new),
    )
    if new:
        cov["violations_found"] = [f.as_dict() for f in new]
    if old:
        cov["known_findings"] = [f.as_dict() for f in old]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    nums = {k: v for k, v in cov.items() if isinstance(v, (int, float))}
    print(f"{pid}: analysed {nums}")
    for f in old:
        print(f"KNOWN-FINDING: property={pid} {f.key}: {kn[f.key].get('what', f.message)}")
    if new:
        rp = os.path.join(VERIF, "evidence", f"{pid}.replay.json")
        with open(rp, "w") as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1, default=str)
        for f in new:
            loc = f"{f.file}:{f.line}" if f.file else "?"
            print(f"  [{f.rule}] {f.construct} ({loc}): {f.message}")
            if f.path:
                print(f"      path: {f.path}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def main(prop, tier, verbose=False):
    ctx = Context(tier)
    if prop == "all":
        rc = 0
        for m in modules():
            rc |= run_one(m.upper(), tier, ctx, verbose)
        return rc
    return run_one(prop.upper(), tier, ctx, verbose)
