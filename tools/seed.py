"""
Builds and verifies planted bugs.

    python3 tools/seed.py build [ID...]     write seeded/<ID>/ from the specs in tools/seedspecs/
    python3 tools/seed.py verify [ID...]    demo passes unchanged, fails patched; stable tests pass patched (in a scratch copy of /repo)
    python3 tools/seed.py checks [ID...]    run the property's check on the patched copy

A spec tools/seedspecs/<ID>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] and is followed, after a line '# DEMO',
by the demonstration itself.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(ROOT, "tools", "seedspecs")
OUT = os.path.join(ROOT, "seeded")
BASE = "4451ad5"


def ids(args):
    return args or sorted(f[:-3] for f in os.listdir(SPECS) if f.endswith(".py"))


def spec(i):
    txt = open(os.path.join(SPECS, i + ".py")).read()
    head, demo = txt.split("\n# DEMO\n", 1)
    ns = {}
    exec(head, ns)
    return ns, demo


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(i):
    ns, demo = spec(i)
    d = os.path.join(OUT, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        sh(["git", "clone", "-q", "-s", "/repo", tmp + "/r"], check=True)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(tmp, "r", f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{i}: {f}: {s.count(old)} occurrences of {old!r}")
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", tmp + "/r", "diff"]).stdout
        assert diff.strip(), i
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # the removed lines have to be of the original repository
        added = sh(["git", "-C", "/repo", "diff", BASE, "HEAD"]).stdout
        ours = {l[1:].strip() for l in added.splitlines() if l.startswith("+") and not l.startswith("+++")}
        rem = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        mine = [l for l in rem if l in ours and len(l) > 3]
        if mine:
            print(f"{i}: WARNING removes lines of our own commits: {mine}")
        if not rem:
            print(f"{i}: note: only adds lines")
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    for f in ("demo.sh", "harness.py"):
        shutil.copy(os.path.join(ROOT, "tools", "seedlib", f), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if "from harness" not in demo and "import harness" not in demo:
        os.unlink(os.path.join(d, "harness.py"))
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def patched(i, dst):
    sh(["cp", "-a", "/repo", dst], check=True)
    r = sh(["git", "-C", dst, "apply", os.path.join(OUT, i, "patch.diff")])
    assert r.returncode == 0, r.stdout


def checks(i):
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        patched(i, tmp + "/r")
        prop = spec(i)[0]["PROPERTY"]
        env = dict(os.environ)
        r = sh([sys.executable, "-m", "fa.run", prop, "--tier", "quick", "--src", tmp + "/r/src", "--out", tmp + "/ev"], cwd=ROOT, env=env)
        hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        return i, prop, hit, r.returncode, r.stdout
    finally:
        shutil.rmtree(tmp)


def scratch_env(tmp):
    """Copies of env.sh, build.sh and test.sh that work on the scratch copy instead of /repo."""
    for f in ("env.sh", "build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/opt/vp/env.sh", tmp + "/env.sh").replace("/repo", tmp + "/r")
        if f == "env.sh":
            s += f"\nexport PYTHONPATH={tmp}/r/src\n"
        open(os.path.join(tmp, f), "w").write(s)


def verify(i, tests=True):
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        sh(["cp", "-a", "/repo", tmp + "/r"], check=True)
        scratch_env(tmp)
        shutil.copytree(os.path.join(OUT, i), tmp + "/d", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        d = open(tmp + "/d/demo.sh").read().replace("/opt/vp/env.sh", tmp + "/env.sh")
        open(tmp + "/d/demo.sh", "w").write(d)
        a = sh(["bash", tmp + "/d/demo.sh"], cwd=tmp + "/r")
        r = sh(["git", "-C", tmp + "/r", "apply", os.path.join(OUT, i, "patch.diff")])
        assert r.returncode == 0, r.stdout
        bl = sh(["bash", tmp + "/build.sh"])
        b = sh(["bash", tmp + "/d/demo.sh"], cwd=tmp + "/r")
        missing = "-"
        if tests:
            sh(["bash", tmp + "/test.sh", tmp + "/o.json"])
            o = json.load(open(tmp + "/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            missing = sorted(set(base["stable"]) - set(o["passed"]))
        ok = a.returncode == 0 and b.returncode != 0 and bl.returncode == 0 and missing in ([], "-")
        print(("ok   " if ok else "BAD  ") + i, "unchanged:", a.returncode, "patched:", b.returncode, "build:", bl.returncode, "tests missing:", missing, flush=True)
        if a.returncode:
            print(a.stdout[-1500:])
        else:
            print("     ", (b.stdout.strip().splitlines() or [""])[-1][:150])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "build":
        for x in ids(args):
            build(x)
    elif cmd == "verify":
        fast = "-n" in args
        for x in ids([a for a in args if a != "-n"]):
            verify(x, not fast)
    elif cmd == "checks":
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for i, prop, hit, rc, out in ex.map(checks, ids([a for a in args if a != "-v"])):
                print(("CAUGHT " if hit else "MISSED ") + i, prop, "exit", rc)
                if "-v" in args or rc == 2:
                    print(out)
