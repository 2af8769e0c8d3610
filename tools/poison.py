"""
Makes the interpreter give up at arbitrary statements and runs all checks on the unchanged tree: whatever is undecided must never raise an alarm.

    python3 tools/poison.py [N [k...]]      N classes of statements (default 40); each run gives up at those of one class
    python3 tools/poison.py one PROP N k    a single check
"""
import os
import subprocess
import sys
import tempfile
import zlib
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def one(prop, n, k):
    from fa import interp
    orig = interp.Interp.exec_stmt

    def exec_stmt(self, st, fr):
        if fr.fn is not None and zlib.crc32(f"{fr.module.name}:{st.lineno}".encode()) % n == k:
            raise interp.Unsupported(f"poisoned {fr.module.name}:{st.lineno}")
        return orig(self, st, fr)
    interp.Interp.exec_stmt = exec_stmt
    from fa import run
    d = tempfile.mkdtemp(prefix="poison")
    sys.argv = ["run", prop, "--tier", "quick", "--out", d]
    rc = run.main()
    subprocess.run(["rm", "-r", d])
    return rc


def main():
    from fa.registry import REGISTRY
    if sys.argv[1:2] == ["one"]:
        sys.exit(one(sys.argv[2], int(sys.argv[3]), int(sys.argv[4])))
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    ks = [int(x) for x in sys.argv[2:]] or range(n)

    def f(a):
        p, k = a
        r = subprocess.run([sys.executable, __file__, "one", p, str(n), str(k)], capture_output=True, text=True, cwd=ROOT)
        return p, k, r.returncode, r.stdout + r.stderr
    with ThreadPoolExecutor(7) as ex:
        for p, k, rc, out in ex.map(f, [(p, k) for k in ks for p in sorted(REGISTRY)]):
            if rc:
                print(p, k, "exit", rc)
                print("\n".join(x[:220] for x in out.splitlines() if "VIOLATION" not in x), flush=True)


main()
