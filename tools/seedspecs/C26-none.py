PROPERTY = 'C26'
NEEDS = 'a group that sets a variable to None which a group before it has defined'
BREAKS = 'variables whose value is None are not passed on to the next module'
EDITS = [('src/fora/inventory_wrapper.py', '            if initializer is not None:\n                for attr, value in initializer.exported_variables().items():\n                    setattr(module, attr, value)\n\n        # Instanciate module file if it exists, else return default definition\n        if module_file is None or not os.path.exists(module_file):\n            # Check if the module file is required because it was explicitly set\n            if declaration.file is not None:\n                raise ValueError(f"Module file for {declaration} does not exist but was explicitly specified")\n            pre_exec(SimpleNamespace())\n        else:\n            load_py_module(module_file, pre_exec=pre_exec)\n\n        fora.group', '            if initializer is not None:\n                for attr, value in initializer.exported_variables().items():\n                    if value is not None:\n                        setattr(module, attr, value)\n\n        # Instanciate module file if it exists, else return default definition\n        if module_file is None or not os.path.exists(module_file):\n            # Check if the module file is required because it was explicitly set\n            if declaration.file is not None:\n                raise ValueError(f"Module file for {declaration} does not exist but was explicitly specified")\n            pre_exec(SimpleNamespace())\n        else:\n            load_py_module(module_file, pre_exec=pre_exec)\n\n        fora.group')]
# DEMO
import os, shutil, tempfile
import fora, fora.loader
from fora.utils import FatalError
import fora.connectors.ssh, fora.connectors.local

class Deploy:
    """A deploy in a scratch directory."""
    def __init__(self, **files):
        self.files = files
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        for n, t in self.files.items():
            p = os.path.join(self.d, n.replace("__", "/") + ".py")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(t)
        return self
    def __exit__(self, *a):
        shutil.rmtree(self.d)
    def load(self):
        fora.loader.load_inventory(self.d + "/inventory.py")
        return fora.inventory.loaded_hosts

with Deploy(inventory='hosts = [dict(url="local:", name="h", groups=["a", "b"])]\ngroups = ["a", dict(name="b", after=["a"])]\n',
            groups__all="proxy = 1\n", groups__a="proxy = None\n", groups__b="other = 1\n") as d:
    h = d.load()["h"]
    assert h.other == 1
    assert getattr(h, "proxy", "missing") is None, getattr(h, "proxy", "missing")
