PROPERTY = 'C22'
NEEDS = 'opening the connection is interrupted'
BREAKS = 'the process is left running'
EDITS = [('src/fora/connectors/tunnel_connector.py', '        finally:\n            # If the connection failed for any reason, be sure to kill the background process.\n            if not self.is_open:\n                self.process.terminate()\n                self.process = None\n', '        except Exception:\n            # If the connection failed for any reason, be sure to kill the background process.\n            self.process.terminate()\n            self.process = None\n            raise\n')]
# DEMO
import subprocess
import fora
from types import SimpleNamespace as N
fora.args = N(debug=False, no_color=True)
import fora.connectors.tunnel_connector as t
events = []
class P:
    stdin = stdout = N(close=lambda: None)
    def poll(self): return None
    def wait(self, *a): events.append("wait")
    def terminate(self): events.append("terminate")
t.subprocess = N(Popen=lambda *a, **k: P(), PIPE=-1)
class C(t.TunnelConnector):
    def command(self): return ["x"]
    def _request(self, p): raise KeyboardInterrupt()
c = C(None, N(name="h", url="x"))
try:
    c.open()
except KeyboardInterrupt:
    pass
assert "terminate" in events, events
