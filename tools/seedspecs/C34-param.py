PROPERTY = 'C34'
NEEDS = 'a deploy generated by --init flat that is run'
BREAKS = 'a generated script declares a parameter which the generated deploy script does not pass'
EDITS = [('src/fora/example_deploys.py', '''            filename: str
''', '''            filename: str
            mode: str
'''), ('src/fora/example_deploys.py', '''            dest=params.filename)
''', '''            dest=params.filename,
            mode=params.mode)
''')]
# DEMO
from harness import *
import contextlib, inspect, io, os, shutil, tempfile
from fora.example_deploys import init_structure_flat
c = setup()
fora.script = None
fora.host.fora_managed = "managed"
d = tempfile.mkdtemp()
try:
    os.chdir(d)
    with contextlib.redirect_stdout(io.StringIO()):
        init_structure_flat()
    c.nodes["/tmp"] = node("dir", "777")
    for f in ("/tmp/hello_world", "/tmp/paramtest.txt"):
        c.nodes[f] = None
    fora.loader.run_script("deploy.py", inspect.getouterframes(inspect.currentframe())[0], name="demo")
finally:
    os.chdir("/")
    shutil.rmtree(d)
assert len(c.uploads()) == 2, c.calls
