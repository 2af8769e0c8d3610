"""Edits that break a property, without demonstration: python3 tools/mutants.py [-v] [ids or properties]

Each is applied to a scratch copy of /repo/src, on which the check of its property is run. These are quick probes of the rules' strength; planted bugs with demonstrations are in seeded/.
"""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = {"files": "operations/files.py", "outils": "operations/utils.py", "api": "operations/api.py", "system": "operations/system.py", "systemd": "operations/systemd.py", "git": "operations/git.py",
     "apt": "operations/apt.py", "pacman": "operations/pacman.py", "portage": "operations/portage.py", "local_op": "operations/local.py", "conn": "connection.py", "types": "types.py",
     "inv": "inventory_wrapper.py", "loader": "loader.py", "main": "main.py", "logger": "logger.py", "utils": "utils.py", "disp": "connectors/tunnel_dispatcher.py",
     "tun": "connectors/tunnel_connector.py", "ssh": "connectors/ssh.py", "local": "connectors/local.py", "ctor": "connectors/connector.py", "init": "example_deploys.py", "settings": "remote_settings.py"}


def load(name="mutants.txt"):
    """tools/mutants.txt: '=== PROP name file' then '<<<' old '---' new '>>>' blocks (several per entry, '@file' switches the file; a first line '#n' selects the n-th match). The text is that of the file after ast.unparse."""
    out = []
    cur = None
    f = None
    mode = None
    for line in open(os.path.join(ROOT, "tools", name), encoding="utf-8"):
        if mode is None:
            if line.startswith("=== "):
                _, prop, name, f = line.split()
                cur = (prop, name, [])
                out.append(cur)
            elif line.startswith("@"):
                f = line[1:].strip()
            elif line.startswith("<<<"):
                mode, old, new = "old", [], []
        elif mode == "old":
            if line.rstrip("\n") == "---":
                mode = "new"
            else:
                old.append(line)
        elif line.rstrip("\n") == ">>>":
            cur[2].append((F[f], "".join(old), "".join(new)))
            mode = None
        else:
            new.append(line)
    return out


def one(m, verbose):
    prop, name, edits = m
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = f"{d}/src/fora/{f}"
            s = ast.unparse(ast.parse(open(p, encoding="utf-8").read())) + "\n"
            k = 0
            if old.startswith("#"):
                k, old = int(old[1:old.index("\n")]), old[old.index("\n") + 1:]
            if old not in s:
                old, new = old.rstrip("\n"), new.rstrip("\n")
            n = s.count(old)
            if n != 1 and not 0 < k <= n:
                return prop, name, f"BAD EDIT ({n} matches in {f})", ""
            parts = s.split(old)
            k = k or 1
            s = old.join(parts[:k]) + new + old.join(parts[k:])
            try:
                compile(s, p, "exec")
            except SyntaxError as e:
                return prop, name, f"BAD EDIT ({e})", ""
            open(p, "w", encoding="utf-8").write(s)
        r = subprocess.run([sys.executable, "-m", "fa.run", prop, "--tier", "quick", "--src", d + "/src", "--out", d], cwd=ROOT, capture_output=True, text=True, timeout=900)
        txt = [x for x in r.stdout.splitlines() if "VIOLATION" not in x]
        return prop, name, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(r.returncode, str(r.returncode)), (r.stdout + r.stderr) if verbose else (txt[0][:200] if txt and r.returncode == 1 else "")
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    verbose = "-v" in args
    sel = [a for a in args if a != "-v"]
    ms = [m for m in load() if not sel or m[0] in sel or m[1] in sel]
    with ThreadPoolExecutor(7) as ex:
        rs = list(ex.map(lambda m: one(m, verbose), ms))
    n = {}
    for prop, name, st, txt in rs:
        n[st.split()[0]] = n.get(st.split()[0], 0) + 1
        if verbose or st != "caught":
            print(f"{prop} {name}: {st} {txt}")
    print(n)


if __name__ == "__main__":
    main()
