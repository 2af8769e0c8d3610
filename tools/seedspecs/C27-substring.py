PROPERTY = 'C27'
NEEDS = "a selected host whose name is part of another one's in the selection given before"
BREAKS = 'it is skipped'
EDITS = [('src/fora/main.py', '        if host in selected_hosts:\n            continue\n', '        if host in ",".join(selected_hosts):\n            continue\n')]
# DEMO
import os, shutil, tempfile
from contextlib import contextmanager
from types import SimpleNamespace as N
import fora, fora.main as m
ran = []
@contextmanager
def open_connection(host):
    yield
m.load_inventory = lambda f: None
m.open_connection = open_connection
m.run_script = lambda *a, **k: ran.append(fora.host.name)
fora.inventory = N(loaded_hosts={n: N(name=n) for n in ("web", "webmail", "db")})
m.main_run(N(inventory="x", hosts="webmail,web,web", script="s.py"))
assert ran == ["webmail", "web"], ran
