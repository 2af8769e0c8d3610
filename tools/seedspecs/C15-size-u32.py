PROPERTY = "C15"
NEEDS = "a file of 4 GiB or more"
BREAKS = "stat of a large file cannot be transmitted"
F = "src/fora/connectors/tunnel_dispatcher.py"
EDITS = [(F, '''    size: u64
''', '''    size: u32
'''), (F, "size=u64(s.st_size)", "size=u32(s.st_size)")]
# DEMO
import io
from types import SimpleNamespace
import fora
fora.args = SimpleNamespace(debug=False)
from fora.connectors import tunnel_dispatcher as td
b = io.BytesIO()
p = td.PacketStatResult(type="file", mode=0o644, owner="a", group="b", size=1 << 33, mtime=1, ctime=1, sha512sum=None)
td.Connection(io.BytesIO(), b).write_packet(p)
assert td.receive_packet(td.Connection(io.BytesIO(b.getvalue()), io.BytesIO())) == p
