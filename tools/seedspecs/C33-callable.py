PROPERTY = 'C33'
NEEDS = 'a host variable that holds a function or class'
BREAKS = 'variables that hold something callable are not shown'
EDITS = [('src/fora/main.py', '            if attr.startswith("_") or isinstance(value, ModuleType):\n', '            if attr.startswith("_") or isinstance(value, ModuleType) or callable(value):\n')]
# DEMO
import os, shutil, tempfile
import fora, fora.loader
from fora.utils import FatalError
import contextlib, io
from types import SimpleNamespace
import fora.main
import fora.connectors.ssh, fora.connectors.local

class Deploy:
    """A deploy in a scratch directory."""
    def __init__(self, **files):
        self.files = files
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        for n, t in self.files.items():
            p = os.path.join(self.d, n.replace("__", "/") + ".py")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.d)
    def load(self):
        fora.loader.load_inventory(self.d + "/inventory.py")
        return fora.inventory.loaded_hosts

fora.args = SimpleNamespace(no_color=True, debug=False)
with Deploy(inventory='hosts = [dict(url="local:", name="h")]\n', groups__all="pick_version = max\nplain = 1\n") as d:
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            fora.main.show_inventory(d.d + "/inventory.py")
        except SystemExit as e:
            assert e.code in (0, None), e.code
    assert "plain" in out.getvalue()
    import re
    assert re.search(r"pick_version(\x1b\[m|\s)", out.getvalue()), "pick_version isn't shown"
