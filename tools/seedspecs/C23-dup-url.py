PROPERTY = 'C23'
NEEDS = 'two hosts, one declared by name and one by a url of that host'
BREAKS = 'the second replaces the first silently'
EDITS = [('src/fora/inventory_wrapper.py', '            if decl.name in self._host_decls:\n                raise ValueError(f"Duplicate host', '            if decl.name in self._host_decls and self._host_decls[decl.name].url == decl.url:\n                raise ValueError(f"Duplicate host')]
# DEMO
import os, tempfile
import fora, fora.loader
from fora.utils import FatalError
import fora.connectors.ssh, fora.connectors.local
d = tempfile.mkdtemp()
try:
    open(d + "/inventory.py", "w").write('hosts = [dict(url="ssh://a.example", name="b"), "ssh://b"]')
    try:
        fora.loader.load_inventory(d + "/inventory.py")
    except FatalError:
        pass
    else:
        raise SystemExit("a duplicate host is accepted")
finally:
    os.unlink(d + "/inventory.py")
    import shutil
    shutil.rmtree(d)
