PROPERTY = 'C14'
NEEDS = 'a working directory which exists but is a socket, fifo or device'
BREAKS = 'it is accepted as the working directory'
EDITS = [('src/fora/connection.py', '            if s.type != "dir":\n', '            if s.type in ("file", "link"):\n')]
# DEMO
from harness import *
c = setup()
c.nodes["/run/x"] = node("sock")
try:
    with fora.script.defaults(cwd="/run/x"):
        pass
except ValueError:
    pass
else:
    raise SystemExit("a socket is accepted as the working directory")
