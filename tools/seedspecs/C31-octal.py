PROPERTY = 'C31'
NEEDS = 'a mode written with a leading zero'
BREAKS = 'modes are compared as they were written, so the mode is set again on each run'
EDITS = [('src/fora/types.py', 'return None if mode is None else oct(int(mode, 8))[2:]', 'if mode is not None:\n                int(mode, 8)\n            return mode')]
# DEMO
from harness import *
c = setup()
from fora.operations import files
from fora.connectors.connector import StatResult
c.nodes["/d"] = StatResult(type="dir", mode="755", owner="root", group="root", size=1, mtime=0, ctime=0, sha512sum=None)
r = files.directory("/d", mode="0755", owner="root", group="root")
assert not r.changed, c.calls
