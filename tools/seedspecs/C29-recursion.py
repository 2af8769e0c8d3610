PROPERTY = 'C29'
NEEDS = 'a script that calls itself by way of another one'
BREAKS = "the recursion isn't detected"
EDITS = [('src/fora/operations/local.py', '        for wrapper, _ in script_stack:\n', '        for wrapper, _ in script_stack[-1:]:\n')]
# DEMO
from harness import *
import os, shutil, tempfile
import fora.operations.local
c = setup()
d = tempfile.mkdtemp()
try:
    open(d + "/a.py", "w").write("import fora\nfora.trace.append('a')\nassert len(fora.trace) < 6, 'recursion'\nfrom fora.operations import local\nlocal.script('b.py')\n")
    open(d + "/b.py", "w").write("import fora\nfora.trace.append('b')\nfrom fora.operations import local\nlocal.script('a.py')\n")
    fora.trace = []
    try:
        fora.loader.run_script(d + "/a.py", None)
    except Exception:
        pass
    assert fora.trace == ["a", "b"], fora.trace
finally:
    shutil.rmtree(d)
