"""
Meaning of the commands an operation runs on the remote system: which ones only
read, and what the modifying ones establish.  Works on argv terms.
"""
from __future__ import annotations
import re
import shlex

from .terms import K, S, NONE, TRUE, FALSE, mk, show, cat, typeof, subterms


class Cmd:
    """A parsed argv term."""

    def __init__(self, term):
        self.term = term
        self.argv = list(term.a) if isinstance(term, S) and term.op in ("list", "tuple") else None
        self.prog = None
        self.flags = []      # constant options without value
        self.opts = {}       # canonical option -> value term
        self.operands = []
        self.after_ddash = []
        self.raw_positions = []   # (index, term, "operand"|"value"|"ddash"|"unknown")
        if self.argv:
            self._parse()

    def _parse(self):
        a0 = self.argv[0]
        self.prog = a0.v.rsplit("/", 1)[-1] if isinstance(a0, K) and isinstance(a0.v, str) else None
        vals = VALUE_OPTS.get(self.prog, {})
        dd = False
        i = 1
        while i < len(self.argv):
            t = self.argv[i]
            if dd:
                self.after_ddash.append(t)
                self.operands.append(t)
                i += 1
                continue
            if isinstance(t, K) and isinstance(t.v, str):
                s = t.v
                if s == "--":
                    dd = True
                elif s.startswith("--") and "=" in s:
                    o, v = s.split("=", 1)
                    self.opts[vals.get(o, o)] = K(v)
                    self.flags.append(s)
                elif s in vals and i + 1 < len(self.argv):
                    self.opts[vals[s]] = self.argv[i + 1]
                    i += 1
                elif s.startswith("-") and s != "-":
                    self.flags.append(s)
                else:
                    self.operands.append(t)
                i += 1
                continue
            if isinstance(t, S) and t.op == "cat" and isinstance(t.a[0], K) and t.a[0].v.startswith("--") and "=" in t.a[0].v:
                o, v = t.a[0].v.split("=", 1)
                self.opts[vals.get(o, o)] = cat(K(v), *t.a[1:])
                i += 1
                continue
            self.operands.append(t)
            i += 1

    def flag(self, *names):
        """Is one of the given flags present (short flags may be combined)?"""
        for n in names:
            if n in self.flags:
                return True
            if len(n) == 2 and n[0] == "-":
                for f in self.flags:
                    if not f.startswith("--") and n[1] in f[1:]:
                        return True
        return False

    def __repr__(self):
        return show(self.term)


_USER = {"--uid": "uid", "-u": "uid", "--gid": "gid", "-g": "gid", "--groups": "groups", "-G": "groups", "--comment": "comment",
         "-c": "comment", "--home-dir": "home", "-d": "home", "--home": "home", "--shell": "shell", "-s": "shell",
         "--password": "password", "-p": "password", "--login": "login", "-l": "login", "--expiredate": "expire", "-e": "expire",
         "--base-dir": "base", "-b": "base"}
_GROUP = {"--gid": "gid", "-g": "gid", "--new-name": "newname", "-n": "newname", "--password": "password", "-p": "password"}
VALUE_OPTS = {
    "useradd": _USER, "usermod": _USER, "groupadd": _GROUP, "groupmod": _GROUP,
    "git": {"-C": "dir", "--git-dir": "gitdir", "--work-tree": "worktree", "-c": "config", "--depth": "depth", "--branch": "branch", "-b": "branch"},
    "mkdir": {"-m": "mode", "--mode": "mode"},
    "install": {"-m": "mode", "--mode": "mode", "-o": "owner", "-g": "group"},
    "systemctl": {"--property": "property", "-p": "property"},
    "dpkg-query": {"-f": "format"},
    "pacman": {"--color": "color"},
}


READ_ONLY = {"readlink", "realpath", "stat", "test", "[", "ls", "cat", "id", "getent", "which", "whoami", "uname", "hostname", "true", "false",
             "pwd", "printenv", "echo", "printf", "head", "tail", "wc", "sha512sum", "sha256sum", "md5sum", "file", "dpkg-query", "dpgk-query",
             "apt-cache", "equery", "qlist", "rpm-query", "basename", "dirname", "type", "command", "grep", "groups", "date", "cmp", "diff", "du", "df",
             "findmnt", "lsblk", "ps", "pgrep"}
SYSTEMCTL_READ = {"show", "status", "is-active", "is-enabled", "is-failed", "cat", "list-units", "list-unit-files", "list-dependencies", "is-system-running", "get-default"}
GIT_READ = {"rev-parse", "ls-remote", "status", "log", "show", "diff", "describe", "ls-files", "rev-list", "cat-file", "ls-tree", "show-ref",
            "symbolic-ref", "merge-base", "for-each-ref", "version"}
SHELLS = {"sh", "bash", "dash", "zsh", "ksh"}


def read_only(cmd: Cmd):
    """True: only reads. False: may modify the remote system (default)."""
    p = cmd.prog
    if p is None:
        return False
    consts = [t.v for t in cmd.argv[1:] if isinstance(t, K) and isinstance(t.v, str)]
    if p in ("env", "nice", "timeout", "sudo"):
        return False
    if p in READ_ONLY:
        if p in ("hostname", "date") and cmd.operands:
            return False
        return True
    if p == "dpkg":
        return cmd.flag("-s", "-l", "-L", "-S", "--status", "--list", "--get-selections") and not cmd.flag("-i", "-r", "-P", "--install", "--remove", "--purge")
    if p == "apt":
        return bool(consts) and consts[0] in ("list", "show", "search", "policy")
    if p == "rpm":
        return any(f.startswith("-q") or f in ("--query",) for f in cmd.flags)
    if p == "find":
        return not any(c in ("-delete", "-exec", "-execdir", "-ok", "-fprint", "-okdir", "-fls", "-fprintf") for c in consts)
    if p == "pacman":
        ops = [f for f in cmd.flags if re.match(r"^-[A-Z]", f) or f in ("--query", "--sync", "--remove", "--upgrade", "--deptest", "--database", "--files")]
        return bool(ops) and all(f.startswith("-Q") or f in ("--query", "-T", "--deptest") or f.startswith("-Ss") or f.startswith("-Si") for f in ops)
    if p == "emerge":
        return any(f in ("--info", "--search", "-s", "--pretend", "-p", "--version", "-V", "-pv", "-vp") for f in cmd.flags)
    if p == "systemctl":
        ops = [t for t in cmd.operands if isinstance(t, K)]
        first = cmd.operands[0] if cmd.operands else None
        return isinstance(first, K) and first.v in SYSTEMCTL_READ and first in ops
    if p == "git":
        first = cmd.operands[0] if cmd.operands else None
        if not isinstance(first, K):
            return False
        if first.v in GIT_READ:
            return True
        if first.v == "config":
            return any(f in ("--get", "--get-all", "--list", "-l", "--get-regexp") for f in cmd.flags)
        if first.v == "remote":
            return len(cmd.operands) == 1 or (isinstance(cmd.operands[1], K) and cmd.operands[1].v in ("get-url", "show"))
        if first.v in ("branch", "tag"):
            return len(cmd.operands) == 1 and not cmd.flag("-d", "-D", "-m", "-f")
        return False
    if p in SHELLS:
        s = shell_script(cmd)
        return isinstance(s, str) and read_only_script(s)
    return False


def shell_script(cmd: Cmd):
    """The constant script text of ``sh -c SCRIPT``; otherwise None."""
    if cmd.flag("-c") and cmd.operands:
        t = cmd.operands[0]
        if isinstance(t, K) and isinstance(t.v, str):
            return t.v
    return None


_SCRIPT_RO = READ_ONLY | {"[["}


def read_only_script(s):
    try:
        lex = shlex.shlex(s, posix=True, punctuation_chars=";&|<>(){}")
        lex.whitespace_split = True
        toks = list(lex)
    except ValueError:
        return False
    start = True
    i = 0
    while i < len(toks):
        t = toks[i]
        if t in (";", "&&", "||", "|", "{", "(", "!", "if", "then", "else", "elif", "do", "while", "&"):
            start = True
        elif t in ("}", ")", "fi", "done"):
            start = False
        elif set(t) <= set("<>&|;(){}"):
            if ">" in t:
                nxt = toks[i + 1] if i + 1 < len(toks) else ""
                if nxt not in ("/dev/null", "1", "2"):
                    return False
                i += 1
            elif "<" not in t:
                return False
        elif start:
            if "=" in t and re.match(r"^\w+=", t):
                pass
            elif t not in _SCRIPT_RO and t not in ("systemctl",):
                return False
            else:
                start = False
        elif "`" in t or "$(" in t:
            return False
        i += 1
    return True


def is_mutation(e):
    """Does the event (possibly) modify the remote system?"""
    if e.kind != "remote":
        return False
    if e.name == "upload":
        return True
    if e.name == "run":
        c = e.arg("command")
        cmd = Cmd(c)
        return not read_only(cmd)
    return False


def cmd_of(e):
    return Cmd(e.arg("command"))


def split_owner(t):
    """'owner:group' term -> (owner or None, group or None); None when it cannot be split."""
    if isinstance(t, K):
        o, s, g = t.v.partition(":")
        return (K(o) if o else None, K(g) if g else None) if s else (K(o), None)
    if isinstance(t, S) and t.op == "cat":
        left, right, seen = [], [], False
        for p in t.a:
            if isinstance(p, K) and ":" in p.v and not seen:
                a, b = p.v.split(":", 1)
                left.append(K(a))
                right.append(K(b))
                seen = True
            else:
                (right if seen else left).append(p)
        if not seen:
            return t, None
        o, g = cat(*left), cat(*right)
        return (None if o is K("") or o == K("") else o, None if g is K("") else g)
    return t, None
