"""
Decide one property on the current source tree.

    python3 -m fa.run C01 [--tier quick|thorough] [--src DIR]

Exit 0: no violation on everything analysed (listed known findings are printed).
Exit 1: "VIOLATION property=<id> replay=<path>" - the replay file describes the constructs and paths.
Exit 2: the analysis gave no answer (public anchor vanished, nothing analysed).
"""
from __future__ import annotations
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback
from collections import Counter

from . import model as M
from .registry import REGISTRY
from .report import Ctx

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "The source is interpreted with the semantics of CPython 3.9+; the interpreter in fa/ (abstract values, path splitting) is trusted.",
    "Library functions are modelled by hand in fa/ext.py; unmodelled ones yield an unknown value and are listed as undecided where it matters.",
    "Paths that could not be fully interpreted are never used to raise an alarm; they are counted under 'undecided'.",
]


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                m = re.match(r"known: property=(\S+) key=<<(.*?)>> (.*)$", ln.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--src", default=None)
    ap.add_argument("--out", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    t0 = time.time()
    prop = a.prop
    ctx = Ctx(prop, a.tier)
    evdir = a.out or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, prop + ".violations.json")
    if os.path.exists(replay):
        os.unlink(replay)
    broken = None
    try:
        i = M.get_interp(a.src)
        for r in REGISTRY[prop]:
            mod, fn = r.rsplit(".", 1)
            n0 = sum(ctx.obligations.values())
            try:
                getattr(importlib.import_module("fa.rules." + mod), fn)(i, ctx)
            except M.AnchorMissing:
                raise
            except RecursionError as e:
                ctx.undec(f"rule {r}: {type(e).__name__}")
            except Exception as e:      # an unforeseen construct: no verdict from this rule, never an alarm
                ctx.undec(f"rule {r}: {type(e).__name__}: {e}")
                if a.v:
                    traceback.print_exc()
    except M.AnchorMissing as e:
        broken = f"public name vanished: {e}"
    except SyntaxError as e:
        broken = f"source does not parse: {e}"
    except Exception as e:
        broken = f"the package could not be loaded: {type(e).__name__}: {e}"
    total = sum(ctx.obligations.values())
    if broken is None and total == 0:
        broken = "no obligation was analysed"

    known = known_findings(prop)
    if broken is None and i.notes.get("lost_effects"):      # the package's own start is known in part only: nothing definite can be said
        for v in ctx.violations.values():
            ctx.undec(f"{v['key']}: module-level effects unknown: {i.notes['lost_effects'][0]}")
        ctx.violations.clear()
    new, old = [], []
    for key, v in ctx.violations.items():
        (old if key in known else new).append(v)
    und = Counter(ctx.undecided)
    cov = {
        "explanation": "Static analysis of /repo's current source: every path of the listed entry points is interpreted over abstract values "
                       "(branch conditions split the path, calls are inlined), and the rules below are evaluated on each path's event sequence. "
                       "Nothing of the analysed code is imported or executed.",
        "rules": dict(ctx.rules),
        "obligations_by_rule": dict(ctx.obligations),
        "obligations": total,
        "discharged": total - sum(v["count"] for v in ctx.violations.values()),
        "entry_points": sorted(ctx.functions),
        "paths_interpreted": ctx.paths,
        "undecided": sum(und.values()),
        "undecided_reasons": [f"{k} (x{n})" for k, n in und.most_common(20)],
        "samples": ctx.samples[:5],
    }
    ev = {"property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other", "coverage": cov,
          "assumptions": ASSUMPTIONS + ctx.notes, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if broken:
        ev["coverage"]["broken"] = broken
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    print(f"{prop}: {len(ctx.functions)} entry points, {ctx.paths} paths, {total} obligations, {sum(und.values())} undecided, {ev['wall_s']} s")
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {v['key']}: {known[v['key']]}")
    if new:
        with open(replay, "w") as f:
            json.dump(new, f, indent=1)
            f.write("\n")
        for v in new:
            print(f"  {v['location']}: [{v['rule']}] {v['construct']}: {v['what']} (x{v['count']})")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if broken:
        print(f"ANALYSIS-BROKEN property={prop}: {broken}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
