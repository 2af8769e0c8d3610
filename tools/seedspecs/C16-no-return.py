PROPERTY = 'C16'
NEEDS = "a command whose identity can't be assumed"
BREAKS = 'two responses are sent for the request'
EDITS = [('src/fora/connectors/tunnel_dispatcher.py', '            conn.write_packet(PacketProcessError(str(e)))\n            return\n', '            conn.write_packet(PacketProcessError(str(e)))\n')]
# DEMO
import fora
from types import SimpleNamespace
fora.args = SimpleNamespace(debug=False, no_color=True)
import io, sys
from types import SimpleNamespace as N
import fora.connectors.tunnel_dispatcher as td

def serve(*requests):
    """Lets the dispatcher handle the requests within this process and returns its responses."""
    b = io.BytesIO()
    c = td.Connection(io.BytesIO(), b)
    for r in requests:
        c.write_packet(r)
    c.write_packet(td.PacketExit())
    out = io.BytesIO()
    i, o, a = sys.stdin, sys.stdout, sys.argv
    sys.stdin, sys.stdout, sys.argv = N(buffer=io.BytesIO(b.getvalue())), N(buffer=out), ["x"]
    try:
        td._main()
    finally:
        sys.stdin, sys.stdout, sys.argv = i, o, a
    c = td.Connection(io.BytesIO(out.getvalue()), io.BytesIO())
    res = []
    while c.buffer_in.tell() < len(out.getvalue()):
        try:
            res.append(td.receive_packet(c, N(**{f: None for r in requests for f in r._fields})))
        except (OSError, ValueError) as e:
            res.append(e)
    return res

import subprocess
def fail(*a, **k):
    raise subprocess.SubprocessError("Exception occurred in preexec_fn.")
td.subprocess = N(run=fail, PIPE=-1, SubprocessError=subprocess.SubprocessError)
r = serve(td.PacketProcessRun(command=["true"]), td.PacketCheckAlive())
assert [type(x).__name__ for x in r] == ["PacketProcessError", "PacketAck"], r
