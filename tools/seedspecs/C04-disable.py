PROPERTY = 'C04'
NEEDS = 'system.service asked to disable a service (enabled=False) on a host where the manager is detected'
BREAKS = 'a service that should be disabled stays enabled although the operation succeeds'
EDITS = [('src/fora/operations/system.py', 'service_fn(service=service, state=state, enabled=enabled, name=name, check=check)', 'service_fn(service=service, state=state, enabled=enabled or None, name=name, check=check)')]
# DEMO
import contextlib, io, subprocess
from types import SimpleNamespace
import fora
from fora.operations import system, utils

calls = []
class Result:
    def __init__(self, out, rc=0):
        self.stdout, self.stderr, self.returncode = out, b"", rc
class Conn:
    """A host with systemctl, that only records what it is asked."""
    @contextlib.contextmanager
    def __call__(self, *a, **k):
        yield self
    def run(self, command, **k):
        if command[0] in ("bash", "sh"):
            return Result(b"systemctl\n")
        calls.append(command)
        return Result(b"")
fora.args = SimpleNamespace(no_color=True, debug=False, dry=False, diff=False, verbose=0, changes=False, show_inherited=False)
fora.host = SimpleNamespace(connection=Conn(), name="h")
got = []
real = dict(utils.service_managers)
utils.service_managers.update({k: (lambda **kw: got.append(kw)) for k in real})
for e in (True, False, None):
    with contextlib.redirect_stdout(io.StringIO()):
        system.service(service="sshd", enabled=e)
assert [g["enabled"] for g in got] == [True, False, None], got
