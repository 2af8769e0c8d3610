PROPERTY = 'C24'
NEEDS = 'a chain of more than ten groups that depend on one another'
BREAKS = 'groups are loaded before groups they depend on'
EDITS = [('src/fora/inventory_wrapper.py', "group_names.sort(key=lambda g: self._group_ranks_min[g])", "group_names.sort(key=lambda g: f'{self._group_ranks_min[g]}-{g}')")]
# DEMO
import os, shutil, tempfile
import fora, fora.loader
from fora.utils import FatalError
import fora.connectors.ssh, fora.connectors.local

class Deploy:
    """A deploy in a scratch directory."""
    def __init__(self, **files):
        self.files = files
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        for n, t in self.files.items():
            p = os.path.join(self.d, n.replace("__", "/") + ".py")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.d)
    def load(self):
        fora.loader.load_inventory(self.d + "/inventory.py")
        return fora.inventory.loaded_hosts

gs = "abcdefghijklm"
decl = ["a"] + [f"dict(name='{y}', after=['{x}'])" for x, y in zip(gs, gs[1:])]
decl[0] = "'a'"
with Deploy(inventory='hosts = [dict(url="local:", name="h", groups=[%s])]\ngroups = [%s]\n' % (",".join(repr(g) for g in gs), ",".join(decl)),
            **{"groups__" + g: f"import fora\nfora.trace.append('{g}')\n" for g in gs}) as d:
    fora.trace = []
    try:
        d.load()
    except FatalError as e:
        raise SystemExit(f"a valid inventory is rejected: {e}")
    assert fora.trace == list(gs), fora.trace
