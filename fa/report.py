"""Result collection for one property check."""
from __future__ import annotations
from collections import Counter, OrderedDict

from .terms import show


class Ctx:
    def __init__(self, prop, tier="quick"):
        self.prop = prop
        self.tier = tier
        self.obligations = Counter()
        self.rules = OrderedDict()
        self.violations = OrderedDict()
        self.undecided = []
        self.functions = set()
        self.paths = 0
        self.notes = []
        self.samples = []

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, n=1):
        self.obligations[rid] += n

    def viol(self, rid, construct, what, path=None, loc=None):
        """construct: stable identification of the offending construct (used to match known findings)."""
        self.obligations[rid] += 1
        key = f"{rid}|{construct}"
        if key in self.violations:
            self.violations[key]["count"] += 1
            return
        v = {"key": key, "rule": rid, "construct": construct, "what": what, "location": loc, "count": 1}
        if path is not None:
            if loc is None and path.events:
                v["location"] = path.events[-1].loc
            v["path_facts"] = [f"{show(k)} = {val}" for k, val in list(path.facts.d.items())[:60]]
            v["path_events"] = [repr(e)[:400] for e in path.events[-40:]]
            v["outcome"] = path.kind + (" " + getattr(path, "excname", "") if path.kind == "raise" else "")
        self.violations[key] = v

    def check(self, cond, rid, construct, what, path=None, loc=None):
        if cond:
            self.ok(rid)
        else:
            self.viol(rid, construct, what, path, loc)
        return cond

    def undec(self, what):
        self.undecided.append(str(what)[:300])

    def take(self, ex, what):
        """Account for one exploration; returns its fully interpreted paths."""
        self.paths += len(ex.paths)
        out = []
        for p in ex.paths:
            if p.kind == "incomplete":
                self.undec(f"{what}: {p.reason}")
            else:
                out.append(p)
        if ex.truncated:
            self.undec(f"{what}: path limit reached")
        return out
