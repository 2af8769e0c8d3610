"""A fake remote system behind the real connection, script and operation classes. Nothing outside of this process is touched."""
import subprocess
import sys
from types import SimpleNamespace

import fora
import fora.loader
from fora.connection import Connection
from fora.connectors.connector import CompletedRemoteCommand, Connector, GroupEntry, StatResult, UserEntry
from fora.remote_settings import RemoteSettings
from fora.inventory_wrapper import InventoryWrapper
from fora.types import HostWrapper, ScriptWrapper

fora.args = SimpleNamespace(debug=False, diff=False, dry=False, changes=True, verbose=0, no_color=True)


class Fake(Connector):
    """Answers from dictionaries and records each call."""
    schema = "fake"

    def __init__(self, url, host):
        super().__init__(url, host)
        self.calls = []
        self.nodes = {}          # path -> StatResult (or exception)
        self.files = {}          # path -> bytes
        self.users = {}
        self.groups = {}
        self.replies = []        # (predicate(argv), returncode, stdout)
        self.opened = self.closed = 0

    def open(self):
        self.opened += 1

    def close(self):
        self.closed += 1

    def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
        self.calls.append(("run", list(command), dict(input=input, capture_output=capture_output, check=check, user=user, group=group, umask=umask, cwd=cwd)))
        for pred, rc, out in self.replies:
            if pred(command):
                if isinstance(rc, BaseException):
                    raise rc
                if check and rc != 0:
                    raise subprocess.CalledProcessError(rc, command, output=out, stderr=b"")
                return CompletedRemoteCommand(stdout=out, stderr=b"", returncode=rc)
        return CompletedRemoteCommand(stdout=b"", stderr=b"", returncode=0)

    def resolve_user(self, user):
        self.calls.append(("resolve_user", user))
        return "root" if user is None else user

    def resolve_group(self, group):
        self.calls.append(("resolve_group", group))
        return "root" if group is None else group

    def stat(self, path, follow_links=False, sha512sum=False):
        self.calls.append(("stat", path, follow_links, sha512sum))
        r = self.nodes.get(path)
        if isinstance(r, BaseException):
            raise r
        return r

    def upload(self, file, content, mode=None, owner=None, group=None):
        self.calls.append(("upload", file, content, mode, owner, group))

    def download(self, file):
        self.calls.append(("download", file))
        if file not in self.files:
            raise ValueError("no such file")
        return self.files[file]

    def query_user(self, user, query_password_hash=False):
        self.calls.append(("query_user", user, query_password_hash))
        if user not in self.users:
            raise ValueError("no such user")
        return self.users[user]

    def query_group(self, group):
        self.calls.append(("query_group", group))
        if group not in self.groups:
            raise ValueError("no such group")
        return self.groups[group]

    def getenv(self, key):
        self.calls.append(("getenv", key))
        return None

    # -- helpers for demonstrations
    def commands(self):
        return [c[1] for c in self.calls if c[0] == "run"]

    def argv(self, program):
        return [c for c in self.commands() if c[0] == program]

    def uploads(self):
        return [c for c in self.calls if c[0] == "upload"]


def node(type="file", mode="644", owner="root", group="root", size=0, sha512sum=None):
    return StatResult(type=type, mode=mode, owner=owner, group=group, size=size, mtime=0, ctime=0, sha512sum=sha512sum)


def setup():
    """Returns the fake connector of an active connection within a script."""
    fora.args.dry = False
    inv = InventoryWrapper(_is_initialized=True)
    inv.wrap(SimpleNamespace(hosts=[]))
    host = HostWrapper(inv, "demo", None)
    host.wrap(SimpleNamespace())
    host.create_connector = lambda: Fake(None, host)
    fora.inventory = inv
    fora.host = host
    fora.script = ScriptWrapper("__demo_script__")
    fora.script.wrap(SimpleNamespace())
    conn = Connection(host)
    conn.connector.nodes["/tmp"] = node("dir", "777")
    conn.__enter__()
    conn.connector.calls.clear()
    return conn.connector


def expect(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.stdout.flush()
        sys.exit(1)
