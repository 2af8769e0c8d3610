PROPERTY = 'C19'
NEEDS = 'a user whose primary group also lists other members'
BREAKS = "supplementary groups omit the primary group's namesake"
EDITS = [('src/fora/connectors/tunnel_dispatcher.py', '        groups = [g.gr_name for g in getgrall() if pw.pw_name in g.gr_mem]\n', '        groups = sorted(g.gr_name for g in getgrall() if pw.pw_name in g.gr_mem and g.gr_gid != pw.pw_gid)\n')]
# DEMO
import fora
from types import SimpleNamespace
fora.args = SimpleNamespace(debug=False, no_color=True)
import io
from types import SimpleNamespace as N
import fora.connectors.tunnel_dispatcher as td
def getpwnam(n):
    if n == "u":
        return N(pw_name="u", pw_uid=5, pw_gid=7, pw_gecos="", pw_dir="/", pw_shell="/bin/sh")
    raise KeyError(n)
gs = [N(gr_name="z", gr_gid=9, gr_mem=["u"]), N(gr_name="p", gr_gid=7, gr_mem=["u", "v"]), N(gr_name="q", gr_gid=8, gr_mem=["v"])]
td.getpwnam = getpwnam
td.getgrall = lambda: gs
td.getgrgid = lambda i: next(g for g in gs if g.gr_gid == i)
out = io.BytesIO()
td.PacketQueryUser(user="u", query_password_hash=False).handle(td.Connection(io.BytesIO(), out))
r = td.receive_packet(td.Connection(io.BytesIO(out.getvalue()), io.BytesIO()))
assert sorted(r.groups) == ["p", "z"], r.groups
