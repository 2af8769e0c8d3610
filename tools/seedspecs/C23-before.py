PROPERTY = 'C23'
NEEDS = 'a group that is declared to come before an undeclared one'
BREAKS = "it isn't rejected as a wrong declaration"
EDITS = [('src/fora/inventory_wrapper.py', '            for before in group.before:\n                if before not in self._group_decls:\n', '            for before in group.after:\n                if before not in self._group_decls:\n')]
# DEMO
import os, shutil, tempfile
import fora, fora.loader
from fora.utils import FatalError
import fora.connectors.ssh, fora.connectors.local

class Deploy:
    """A deploy in a scratch directory."""
    def __init__(self, **files):
        self.files = files
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        for n, t in self.files.items():
            p = os.path.join(self.d, n.replace("__", "/") + ".py")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.d)
    def load(self):
        fora.loader.load_inventory(self.d + "/inventory.py")
        return fora.inventory.loaded_hosts

with Deploy(inventory='hosts = [dict(url="local:", name="h")]\ngroups = [dict(name="a", before=["nope"])]\n') as d:
    try:
        d.load()
    except FatalError as e:
        pass
    else:
        raise SystemExit("an undeclared group is accepted")
