PROPERTY = 'C21'
NEEDS = 'an upload over a directory'
BREAKS = 'the failure is reported with another error number'
EDITS = [('src/fora/connectors/tunnel_dispatcher.py', '        except OSError as e:\n            conn.write_packet(PacketOSError(', '        except (FileNotFoundError, PermissionError, NotADirectoryError) as e:\n            conn.write_packet(PacketOSError(')]
# DEMO
import fora
from types import SimpleNamespace
fora.args = SimpleNamespace(debug=False, no_color=True)
import io, sys
from types import SimpleNamespace as N
import fora.connectors.tunnel_dispatcher as td

def serve(*requests):
    """Lets the dispatcher handle the requests within this process and returns its responses."""
    b = io.BytesIO()
    c = td.Connection(io.BytesIO(), b)
    for r in requests:
        c.write_packet(r)
    c.write_packet(td.PacketExit())
    out = io.BytesIO()
    i, o, a = sys.stdin, sys.stdout, sys.argv
    sys.stdin, sys.stdout, sys.argv = N(buffer=io.BytesIO(b.getvalue())), N(buffer=out), ["x"]
    try:
        td._main()
    finally:
        sys.stdin, sys.stdout, sys.argv = i, o, a
    c = td.Connection(io.BytesIO(out.getvalue()), io.BytesIO())
    res = []
    while c.buffer_in.tell() < len(out.getvalue()):
        try:
            res.append(td.receive_packet(c, N(**{f: None for r in requests for f in r._fields})))
        except (OSError, ValueError, td.RemoteOSError) as e:
            res.append(e)
    return res

import errno, os, tempfile
d = tempfile.mkdtemp()
try:
    r = serve(td.PacketUpload(file=d, content=b"x"))
finally:
    os.rmdir(d)
assert len(r) == 1 and isinstance(r[0], td.RemoteOSError) and r[0].errno == errno.EISDIR, r
