"""
Automatic mutations (a statement dropped, a condition negated, a comparison or a constant changed, an argument dropped): lists those no check notices, for review.

    python3 tools/automut.py FILE PROPS [-k N]     FILE below src/fora, PROPS like C15,C16 or 'all'
"""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from fa.registry import REGISTRY  # noqa: E402


def sites(tree):
    """(description, function applying the mutation in place) for each mutation of the tree, by position"""
    out = []
    for n in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return, ast.Delete, ast.Continue, ast.Break)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        if isinstance(n, ast.Module) or isinstance(n, ast.ClassDef):
                            continue
                        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "_":
                            continue
                        if isinstance(s, ast.Return) and s.value is None and k == len(b) - 1 and isinstance(n, ast.FunctionDef):
                            continue
                        out.append((s.lineno, "drop: " + ast.unparse(s)[:100], (b, k, "drop")))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((n.lineno, "negate: " + ast.unparse(n.test)[:100], (n, None, "neg")))
        if isinstance(n, ast.BoolOp):
            out.append((n.lineno, "andor: " + ast.unparse(n)[:100], (n, None, "andor")))
            for k in range(len(n.values)):
                out.append((n.lineno, f"operand {k}: " + ast.unparse(n)[:100], (n, k, "operand")))
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            out.append((n.lineno, "bound: " + ast.unparse(n)[:100], (n, None, "bound")))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n.lineno, f"flip {n.value}", (n, None, "flip")))
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg:
                    out.append((n.lineno, f"no keyword {kw.arg}: " + ast.unparse(n)[:100], (n, k, "kw")))
    return out


def apply(tree, what):
    n, k, how = what
    if how == "drop":
        n[k] = ast.copy_location(ast.Pass(), n[k])
    elif how == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif how == "andor":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif how == "operand":
        n.values[k] = ast.Constant(isinstance(n.op, ast.And))
    elif how == "bound":
        n.ops[0] = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}[type(n.ops[0])]()
    elif how == "flip":
        n.value = not n.value
    elif how == "kw":
        del n.keywords[k]


def main():
    f, props = sys.argv[1], sys.argv[2]
    props = sorted(REGISTRY) if props == "all" else props.split(",")
    step = int(sys.argv[sys.argv.index("-k") + 1]) if "-k" in sys.argv else 1
    text = open(f"/repo/src/fora/{f}").read()
    n = len(sites(ast.parse(text)))
    src = tempfile.mkdtemp(prefix="am")

    def run(j):
        t = ast.parse(text)
        ln, desc, what = sites(t)[j]
        apply(t, what)
        d = f"{src}/{j}"
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        try:
            open(f"{d}/src/fora/{f}", "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
            rcs = []
            for p in props:
                r = subprocess.run([sys.executable, "-m", "fa.run", p, "--src", d + "/src", "--out", d], cwd=ROOT, capture_output=True, text=True)
                if r.returncode == 1:
                    return ln, desc, p
                if r.returncode:
                    rcs.append(p)
            return ln, desc, ("?" + ",".join(rcs)) if rcs else None
        finally:
            shutil.rmtree(d)
    tot = 0
    with ThreadPoolExecutor(8) as ex:
        for ln, desc, p in ex.map(run, range(0, n, step)):
            tot += 1
            if p is None or p[0] == "?":
                print(f"{f}:{ln} {desc} {p or ''}", flush=True)
    print(tot, "mutations of", f, flush=True)
    shutil.rmtree(src)


main()
