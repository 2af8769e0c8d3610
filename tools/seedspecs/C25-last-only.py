PROPERTY = 'C25'
NEEDS = 'two unrelated groups that modify an object in place, and a third which comes after only one of them and replaces it'
BREAKS = 'only the latest of the earlier definitions is considered'
EDITS = [('src/fora/inventory_wrapper.py', '                    for prev in variable_action_history[attr]:\n', '                    for prev in variable_action_history[attr][-1:]:\n')]
# DEMO
import os, shutil, tempfile
import fora, fora.loader
from fora.utils import FatalError
import fora.connectors.ssh, fora.connectors.local

class Deploy:
    """A deploy in a scratch directory."""
    def __init__(self, **files):
        self.files = files
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        for n, t in self.files.items():
            p = os.path.join(self.d, n.replace("__", "/") + ".py")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.d)
    def load(self):
        fora.loader.load_inventory(self.d + "/inventory.py")
        return fora.inventory.loaded_hosts

with Deploy(inventory='hosts = [dict(url="local:", name="h", groups=["e", "l", "c"])]\ngroups = ["e", "l", dict(name="c", after=["l"])]\n',
            groups__all="v = []\n", groups__e="v.append(1)\n", groups__l="v.append(2)\n", groups__c="v = [9]\n") as d:
    try:
        d.load()
    except FatalError:
        pass
    else:
        raise SystemExit("an ambiguous definition is accepted")
