PROPERTY = 'C17'
NEEDS = 'a packet stream that ends in the middle of a packet'
BREAKS = 'the dispatcher reports the broken stream on the stream itself'
EDITS = [('src/fora/connectors/tunnel_dispatcher.py', 'print(f"{str(e)}. Aborting.", file=sys.stderr, flush=True)', 'print(f"{str(e)}. Aborting.", flush=True)')]
# DEMO
import subprocess, sys
import fora.connectors.tunnel_dispatcher as td
r = subprocess.run([sys.executable, td.__file__], input=b"\x00\x00", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
assert r.stdout == b"", r.stdout
