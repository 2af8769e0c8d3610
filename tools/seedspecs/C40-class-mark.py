PROPERTY = 'C40'
NEEDS = 'two different failing commands within one run'
BREAKS = 'the mark that a failure was already reported is set for all failures'
EDITS = [('src/fora/operations/api.py', 'setattr(e, "__fora_already_printed", True)', 'setattr(type(e), "__fora_already_printed", True)')]
# DEMO
from harness import *
import contextlib, io
import subprocess
from types import SimpleNamespace
c = setup()
from fora.operations import files
c.nodes["/d"] = c.nodes["/e"] = None
c.replies.append((lambda argv: argv[-1] in ("/d", "/e"), 1, b"MARK"))
err = io.StringIO()
with contextlib.redirect_stderr(err):
    for d in ("/d", "/e"):
        try:
            files.directory(d)
        except subprocess.CalledProcessError:
            pass
        else:
            raise SystemExit("no error")
assert err.getvalue().count("MARK") == 2, err.getvalue()
