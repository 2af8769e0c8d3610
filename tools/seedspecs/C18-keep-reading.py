PROPERTY = "C18"
NEEDS = "the connection breaks while the dispatcher is waiting for a request"
BREAKS = "the dispatcher keeps running after its input ended"
F = "src/fora/connectors/tunnel_dispatcher.py"
EDITS = [(F, '''            print(f"{str(e)}. Aborting.", file=sys.stderr, flush=True)
            sys.exit(3)
''', '''            print(f"{str(e)}. Aborting.", file=sys.stderr, flush=True)
            if conn.should_close:
                sys.exit(3)
            continue
''')]
# DEMO
import subprocess, sys, fora.connectors.tunnel_dispatcher as td
p = subprocess.Popen([sys.executable, td.__file__], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    p.wait(10)
except subprocess.TimeoutExpired:
    p.kill()
    sys.exit("the dispatcher doesn't stop at the end of its input")
assert p.returncode != 0
