PROPERTY = "C12"
NEEDS = "an inventory whose base_remote_settings() returns one shared object, and two connections with different remote users"
BREAKS = "the identity of the second connection overwrites the base settings of the first one"
F = "src/fora/connection.py"
EDITS = [(F, '''copy(self.host.inventory.base_remote_settings())''', '''self.host.inventory.base_remote_settings()'''), (F, "from copy import copy\n\n", "\n")]
# DEMO
from harness import *
c = setup()
first = fora.host.connection
shared = RemoteSettings(as_user="root", as_group="root", owner="root", group="root", file_mode="600", dir_mode="700", umask="077", cwd="/tmp")
fora.inventory.module.base_remote_settings = lambda: shared
a = Connection(fora.host)
a.connector.resolve_user = lambda u: "alice"
a.__enter__()
b = Connection(fora.host)
b.connector.resolve_user = lambda u: "bob"
b.__enter__()
expect(a.base_settings.as_user == "alice" and a.base_settings.owner == "alice", "base settings must not be shared between connections")
