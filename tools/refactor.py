"""
Hand-written behaviour-preserving edits (tools/refactorings.txt, format of mutants.txt; the first word names a group): every check has to stay quiet.

    python3 tools/refactor.py [-v] [-1] [groups or names]      -1: each edit alone (default: all of a group together)
"""
import ast
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import autorefactor as A  # noqa: E402
import mutants as MU  # noqa: E402


def edit(src, f, old, new):
    p = f"{src}/fora/{f}"
    s = ast.unparse(ast.parse(open(p, encoding="utf-8").read())) + "\n"
    if old not in s:
        old, new = old.rstrip("\n"), new.rstrip("\n")
    n = s.count(old)
    if n != 1:
        return f"{n} matches in {f}: {old[:80]!r}"
    s = s.replace(old, new)
    try:
        compile(s, p, "exec")
    except SyntaxError as e:
        return str(e)
    open(p, "w", encoding="utf-8").write(s)


def main():
    args = sys.argv[1:]
    verbose, single = "-v" in args, "-1" in args
    sel = [a for a in args if not a.startswith("-")]
    rs = [r for r in MU.load("refactorings.txt") if not sel or r[0] in sel or r[1] in sel]
    groups = {}
    for g, n, e in rs:
        groups.setdefault((g, n) if single else g, []).append((n, e))
    d0 = tempfile.mkdtemp(prefix="ar")
    A.run("/repo/src", d0, False)
    base = {p: A.undecided(d0, p) for p in sorted(A.REGISTRY)}
    shutil.rmtree(d0)
    for g, es in groups.items():
        d = tempfile.mkdtemp(prefix="ar")
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for n, e in es:
            for f, old, new in e:
                r = edit(d + "/src", f, old, new)
                if r:
                    print("BAD EDIT", n, r)
        A.report(str(g), base, d, A.run(d + "/src", d, verbose), verbose)
        shutil.rmtree(d)


if __name__ == "__main__":
    main()
