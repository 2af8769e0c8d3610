PROPERTY = 'C20'
NEEDS = "a command requested for a group only (or with a group that differs from the user's primary group)"
BREAKS = 'the real gid stays that of the dispatcher'
EDITS = [('src/fora/connectors/tunnel_dispatcher.py', '                os.setresgid(gid, gid, gid)\n', '                os.setresgid(-1 if uid is None else gid, gid, gid)\n')]
# DEMO
import fora
from types import SimpleNamespace
fora.args = SimpleNamespace(debug=False, no_color=True)
import io, os
import fora.connectors.tunnel_dispatcher as td
calls = []
td.os = type("O", (), {"__getattr__": lambda s, n: getattr(os, n)})()
td._resolve_group = lambda g: 55
got = []
td.os.setresgid = lambda *a: got.append(a)
td.os.setresuid = lambda *a: None
td.os.umask = lambda m: 0
td.os.initgroups = lambda *a: None
class R:
    stdout = stderr = b""
    returncode = 0
def run(cmd, preexec_fn=None, **k):
    preexec_fn()
    return R
import subprocess
td.subprocess = type("S", (), {"__getattr__": lambda s, n: getattr(subprocess, n)})()
td.subprocess.run = run
out = io.BytesIO()
td.PacketProcessRun(command=["true"], group="g").handle(td.Connection(io.BytesIO(), out))
assert got == [(55, 55, 55)], got
