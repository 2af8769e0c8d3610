PROPERTY = 'C19'
NEEDS = 'a stat with hash and without following links, of a link'
BREAKS = 'the hash of the target is returned for the link'
EDITS = [('src/fora/connectors/tunnel_dispatcher.py', '        if self.sha512sum and ftype == "file":\n', '        if self.sha512sum and os.path.isfile(self.path):\n')]
# DEMO
import fora
from types import SimpleNamespace
fora.args = SimpleNamespace(debug=False, no_color=True)
import io, os, sys, tempfile
import fora.connectors.tunnel_dispatcher as td
d = tempfile.mkdtemp()
try:
    open(d + "/f", "w").write("x")
    os.symlink("f", d + "/l")
    out = io.BytesIO()
    td.PacketStat(path=d + "/l", follow_links=False, sha512sum=True).handle(td.Connection(io.BytesIO(), out))
    r = td.receive_packet(td.Connection(io.BytesIO(out.getvalue()), io.BytesIO()))
    assert r.type == "link" and r.sha512sum is None, r
    out = io.BytesIO()
    td.PacketStat(path=d + "/f", follow_links=False, sha512sum=True).handle(td.Connection(io.BytesIO(), out))
    r = td.receive_packet(td.Connection(io.BytesIO(out.getvalue()), io.BytesIO()))
    assert r.sha512sum is not None
finally:
    for x in ("f", "l"):
        os.unlink(d + "/" + x)
    os.rmdir(d)
