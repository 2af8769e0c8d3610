"""Rules that follow an operation through a constructed situation: a tree that is uploaded, a system already in the requested state."""
from __future__ import annotations

import hashlib
import posixpath
import re

from ..terms import (K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT, T_BYTES, T_ANY)
from ..objects import Inst, ListObj, SetObj, DictObj, TupleV, freeze, cls_name, FnV, PyFn, Ext, BoundV
from ..interp import explore, Unsupported, AbsRaise, Config
from .. import model as M
from ..effects import Cmd, cmd_of, is_mutation, read_only, shell_script, SHELLS
from .ops import result, by_dry, DRY_ATOM

C = "fora.connectors.connector."

# --------------------------------------------------------------------------
# upload_dir

TREE = {"": (["a", "e"], ["f", "g", "special"]), "a": (["b"], ["h"]), "a/b": ([], ["i", "f"]), "e": ([], [])}


def _tree_config(i, src, plan):
    """plan: (index of the nested operation that misbehaves or None, 'changed' | 'fails')."""
    cfg = M.ops_config(i)
    root = posixpath.normpath(src)

    def under(p):
        p = posixpath.normpath(p)
        return posixpath.relpath("/x/" + p, "/x/" + root) if not p.startswith("/") else posixpath.relpath(p, root)

    def key(p):
        r = under(p)
        return "" if r == "." else r

    def walk(ii, a, k, n):
        if not isinstance(a[0], K):
            raise Unsupported("os.walk of " + show(freeze(a[0])))
        top = a[0].v
        out = []

        def go(path, k):
            ds, fs = TREE[k]
            out.append(TupleV([K(path), ListObj([K(d) for d in ds], ii.epoch), ListObj([K(f) for f in fs], ii.epoch)]))
            for d in ds:
                go(posixpath.join(path, d), (k + "/" + d).lstrip("/"))
        if key(top) not in TREE:
            raise Unsupported("os.walk of " + top)
        go(top, key(top))
        return ListObj(out, ii.epoch)

    def listdir(ii, a, k, n):
        if not isinstance(a[0], K) or key(a[0].v) not in TREE:
            raise Unsupported("os.listdir")
        ds, fs = TREE[key(a[0].v)]
        return ListObj([K(x) for x in fs + ds], ii.epoch)
    isdir = lambda p: key(p) in TREE
    exists = lambda p: isdir(p) or any((d + "/" + f).lstrip("/") == key(p) for d, (_, fs) in TREE.items() for f in fs)
    isfile = lambda p: exists(p) and not isdir(p) and not p.endswith("special")

    def pred(fn):
        def h(ii, a, k, n):
            if not isinstance(a[0], K):
                raise Unsupported("test of a local path")
            return K(fn(a[0].v))
        return h
    cfg.ext.update({"os.walk": walk, "os.listdir": listdir, "os.path.isdir": pred(isdir), "os.path.isfile": pred(isfile), "os.path.exists": pred(exists), "os.path.islink": pred(lambda p: False), "os.path.getsize": pred(lambda p: 0)})

    def nested(ii, fn, args, kwargs, n):
        base = M.unwrap(fn)
        if not base.module.name.startswith("fora.operations.") or not any(x.arg == "op" for x in base.node.args.args) or base.qualname.endswith(".upload_dir"):
            return NotImplemented
        b = ii.bind_args(base, args, dict(kwargs), n)
        b.pop("op", None)
        k = len([e for e in ii.events if e.kind == "nestedop"])
        how = plan[1] if plan[0] == k else None
        chk = b.get("check", TRUE)
        if isinstance(chk, S):
            chk = K(ii.decide(truthy_atom(chk)))
        cls = M.lookup(ii, "fora.operations.api.OperationResult")
        d = lambda v: DictObj([(K("exists"), K(v))], ii.epoch)
        ii.emit("nestedop", base.qualname, b, n)
        if how == "fails":
            ii.notes["failed"] = len(ii.events)
            if chk is TRUE:
                e = ii.make_exc("fora.operations.api.OperationError", K("it failed"))
                raise AbsRaise(e, n, ii.loc(n))
            return Inst(cls, {"success": FALSE, "changed": FALSE, "initial": d(True), "final": d(True), "failure_message": K("it failed")}, ii.epoch)
        return Inst(cls, {"success": TRUE, "changed": K(how == "changed"), "initial": d(how != "changed"), "final": d(True), "failure_message": NONE}, ii.epoch)
    cfg.op_hook = nested
    return cfg


def _tree_runs(i, ctx, src, dest, plan):
    f = M.OPERATIONS["files.upload_dir"]
    base = M.unwrap(M.lookup(i, f))
    ctx.functions.add(base.qualname)
    ex = explore(i, _tree_config(i, src, plan), M.op_entry(f, fixed={"src": K(src), "dest": K(dest), "name": NONE}), 64)
    return ctx.take(ex, f"upload_dir {src} to {dest}")


N_TREE = 1 + 3 + 5


def _nested(p):
    """(kind, destination, source, bound) of the nested operations, None for unknown ones."""
    out = []
    for e in p.events:
        if e.kind != "nestedop":
            continue
        op = e.name.rsplit(".", 1)[-1]
        if op == "directory":
            out.append(("dir", e.args.get("path"), None, e))
        elif op == "upload":
            out.append(("file", e.args.get("dest"), e.args.get("src"), e))
        else:
            out.append(("?", None, None, e))
    return out


def upload_tree(i, ctx):
    ctx.rule("tree-exact", "Uploading a directory creates each of its directories (also empty ones) and uploads each of its regular files, once, at the same relative place below the destination, with the given modes and ownership, and nothing else.")
    ctx.rule("tree-parents", "A directory is created before what it contains.")
    ctx.rule("tree-dest", "A destination with a trailing slash denotes the parent of the uploaded directory or file, any other destination its new name.")
    for src, dest, base in (("s", "/d", "/d"), ("s", "/d/", "/d/s"), ("x/s", "/d/", "/d/s"), ("s/", "/d/", "/d/s"), ("s/", "/d", "/d"), ("/l/s", "/", "/s"), ("./s", "/d/t", "/d/t")):
        lab = f"upload_dir of {src} to {dest}"
        want = {}
        for d, (ds, fs) in TREE.items():
            want[posixpath.normpath(posixpath.join(base, d))] = ("dir", None)
            for f in fs:
                if f != "special":
                    want[posixpath.normpath(posixpath.join(base, d, f))] = ("file", posixpath.normpath(posixpath.join(src, d, f)))
        for p in _tree_runs(i, ctx, src, dest, (None, "")):
            if p.kind == "raise":
                ctx.viol("tree-exact", "raise", f"{lab} raises {p.excname}", p)
                continue
            got = {}
            bad = False
            ns = _nested(p)
            for kind, path, s, e in ns:
                if kind == "?" or not isinstance(path, K) or (kind == "file" and not isinstance(s, K)):
                    bad = True
                    continue
                t = posixpath.normpath(path.v)
                rule = "tree-dest" if t not in want and not t.startswith(base + "/") else "tree-exact"
                if not ctx.check(want.get(t, ("",))[0] == kind, rule, "extra", f"{lab} creates {kind} {path.v}, which is not part of it", p, e.loc):
                    continue
                ctx.check(t not in got, "tree-exact", "twice", f"{lab} handles {path.v} twice", p, e.loc)
                par = posixpath.dirname(t)
                ctx.check(par in got or t == base, "tree-parents", kind, f"{lab} handles {path.v} before its directory is created", p, e.loc)
                got[t] = s
                if kind == "file":
                    ctx.check(posixpath.normpath(s.v) == want[t][1], "tree-exact", "source", f"{lab} uploads {s.v} to {path.v}", p, e.loc)
                    ctx.check(not path.v.endswith("/"), "tree-dest", "slash", f"{lab} uploads {s.v} to the directory {path.v}", p, e.loc)
                for a, par in (("mode", "dir_mode" if kind == "dir" else "file_mode"), ("owner", "owner"), ("group", "group")):
                    v = e.args.get(a, NONE)
                    ctx.check(v is M.sym(par, Ty("str", True)) or p.facts.isnone(M.sym(par, Ty("str", True))) is True and p.facts.isnone(freeze(v)) is True, "tree-exact", a, f"{lab}: {kind} {path.v} gets the {a} {show(freeze(v))}", p, e.loc)
                if kind == "dir":
                    ctx.check(e.args.get("present", TRUE) is TRUE, "tree-exact", "present", f"{lab} removes {path.v}", p, e.loc)
            if bad or not ns:
                ctx.undec(f"{lab}: nested operations not understood")
                continue
            for t, (kind, _) in want.items():
                ctx.check(t in got, "tree-exact", "missing " + kind, f"{lab} succeeds without the {kind} {t}", p)


def file_dest(i, ctx):
    """tree-dest for single files."""
    for op, form in (("upload", True), ("template", True), ("upload_content", False), ("template_content", False)):
        qual = M.OPERATIONS["files." + op]
        for src in ("x/y.txt", "y.txt", "/l/y.txt"):
            for dest, want in (("/d/", "/d/y.txt"), ("/", "/y.txt"), ("/d/f", "/d/f"), ("/d//", "/d/y.txt")):
                if not form:
                    if src != "y.txt" or dest.endswith("/"):
                        continue
                fixed = {"name": NONE, "dest": K(dest), "mode": NONE, "owner": NONE, "group": NONE}
                if form:
                    fixed["src"] = K(src)
                cfg = M.ops_config(i)
                cfg.intercepts["fora.connection.Connection.stat"] = lambda ii, b, n, fn: (M.remote(ii, "stat", b, n, NONE), NONE)[1]
                lab = f"files.{op} of {src} to {dest}"
                for p in ctx.take(explore(i, cfg, M.op_entry(qual, fixed=fixed, args={"dry": FALSE, "diff": TRUE}), 200), lab):
                    for e in p.events:
                        if e.kind != "remote" or e.name not in ("stat", "upload", "download", "download_or"):
                            continue
                        t = e.args.get("path", e.args.get("file"))
                        if not isinstance(t, K):
                            ctx.undec(f"{lab}: path {show(freeze(t))}")
                            continue
                        ctx.check(posixpath.normpath(t.v) == want, "tree-dest", f"{op}|{e.name}", f"{lab}: {e.name} of {t.v} instead of {want}", p, e.loc)
                        if e.name == "upload":
                            ctx.check(not t.v.endswith("/"), "tree-dest", "slash", f"{lab}: uploads to the directory {t.v}", p, e.loc)
                    for e in p.events:
                        if form and e.kind == "ext" and e.name == "builtins.open" and isinstance(e.args.get("file"), K):
                            ctx.check(e.args["file"].v == src, "tree-dest", f"{op}|source", f"{lab}: reads {e.args['file'].v}", p, e.loc)


def tree_report(i, ctx):
    ctx.rule("nested-report", "An operation composed of others reports a change, in real and dry runs, exactly if one of them does.")
    for k in [None] + list(range(N_TREE)):
        for p in by_dry(_tree_runs(i, ctx, "s", "/d", (k, "changed"))):
            r = result(p) if p.kind == "return" else None
            if r is None or r[0] is not True:
                ctx.viol("nested-report", "fails", f"upload_dir doesn't succeed although its parts do ({p.kind})", p)
                continue
            hit = k is not None and len([e for e in p.events if e.kind == "nestedop"]) > k
            if r[1] is None:
                ctx.undec("upload_dir: changed flag not decided")
                continue
            ctx.check(r[1] == hit, "nested-report", f"changed={r[1]}", f"upload_dir reports changed={r[1]} although {'part ' + str(k) if hit else 'no part'} of it changed something", p)


def tree_failure(i, ctx):
    ctx.rule("nested-failure", "An operation composed of others doesn't succeed if one of them fails, whether its failure is raised or returned, and doesn't continue with the next.")
    for k in range(N_TREE):
        for p in _tree_runs(i, ctx, "s", "/d", (k, "fails")):
            at = p.notes.get("failed")
            if at is None:
                continue
            r = result(p) if p.kind == "return" else None
            ctx.check(p.kind == "raise" or (r is not None and r[0] is False), "nested-failure", "success", f"upload_dir succeeds although part {k} of it failed", p)
            later = [e for e in p.events[at:] if e.kind == "nestedop"]
            ctx.check(not later, "nested-failure", "continues", f"upload_dir goes on after part {k} of it failed", p)


# --------------------------------------------------------------------------
# converged systems


def _completed(ii, out=b"", rc=0):
    return Inst(M.lookup(ii, C + "CompletedRemoteCommand"), {"stdout": out if not isinstance(out, bytes) else K(out), "stderr": K(b""), "returncode": K(rc)}, ii.epoch)


def _stat(ii, type, mode=None, owner=None, group=None, sha=NONE):
    res = lambda fld, par: M.resolved(fld, par)
    return Inst(M.lookup(ii, C + "StatResult"), {"type": K(type), "mode": mode, "owner": owner, "group": group, "size": K(1), "mtime": K(0), "ctime": K(0), "sha512sum": sha}, ii.epoch)


def _p(name, kind="str", nullable=True):
    return M.sym(name, Ty(kind, nullable))


ATTRS = lambda fld: {"mode": M.resolved(fld, _p("mode")), "owner": M.resolved("owner", _p("owner")), "group": M.resolved("group", _p("group"))}
SHA = M.sym("observed digest", T_BYTES)


class Case:
    def __init__(self, op, label, fixed, stat=None, run=None, user=None, group=None, content=None):
        self.op, self.label, self.fixed, self.stat, self.run, self.user, self.group, self.content = op, label, fixed, stat, run, user, group, content


def _lst(*xs):
    return lambda ii: ListObj([K(x) for x in xs], ii.epoch)


def _systemctl(active, unit):
    def run(ii, c):
        if c.prog != "systemctl":
            return None
        pr = c.opts.get("property")
        ops = [t.v for t in c.operands if isinstance(t, K)]
        if pr is K("ActiveState"):
            return _completed(ii, active + b"\n")
        if pr is K("UnitFileState"):
            return _completed(ii, unit + b"\n")
        if "is-active" in ops:
            return _completed(ii, active + b"\n", 0 if active == b"active" else 3)
        if "is-enabled" in ops:
            return _completed(ii, unit + b"\n", 0 if unit == b"enabled" else 1)
        return None
    return run


def _pkg(installed):
    def run(ii, c):
        pk = [t.v for t in (c.after_ddash or c.operands[-1:]) if isinstance(t, K)]
        have = bool(pk) and all(x in installed for x in pk)
        if c.prog == "dpkg-query":
            return _completed(ii, b"install ok installed" if have else b"", 0 if have else 1)
        if c.prog == "pacman":
            return _completed(ii, b"x /x\n" if have else b"", 0 if have else 1)
        if c.prog == "emerge":
            return _completed(ii, b"cat/pkg was built with the following:\n" if have else b"", 0)
        return None
    return run


def _git(head, newest, url=b"https://u"):
    def run(ii, c):
        ops = [t.v for t in c.operands if isinstance(t, K)]
        if c.prog != "git":
            return None
        if "rev-parse" in ops:
            short = "short" in c.opts or any(str(t.v).startswith("--short") for t in c.argv if isinstance(t, K))
            return _completed(ii, (head[:7] if short else head) + b"\n")
        if "ls-remote" in ops:
            return _completed(ii, newest + b"\tHEAD\n")
        if "config" in ops:
            return _completed(ii, url + b"\n")
        return None
    return run


def _user(groups=(), **kw):
    def mkuser(ii):
        d = {"name": _p("user", nullable=False), "uid": K(1000), "group": K("g"), "gid": K(1000), "groups": ListObj([K(x) for x in groups], ii.epoch), "password_hash": K("!x"), "gecos": K("c"), "home": K("/h"), "shell": K("/s")}
        d.update(kw)
        return Inst(M.lookup(ii, C + "UserEntry"), d, ii.epoch)
    return mkuser


def _cases():
    A = ATTRS
    out = []
    for op, fld, kind in (("directory", "dir_mode", "dir"), ("file", "file_mode", "file")):
        out.append(Case("files." + op, "present", {"present": TRUE, "touch": FALSE}, stat=lambda ii, k=kind, f=fld: _stat(ii, k, **A(f))))
        out.append(Case("files." + op, "absent", {"present": FALSE}, stat=lambda ii: NONE))
    rl = lambda ii, c: _completed(ii, b"/t") if c.prog == "readlink" else None
    la = {"mode": K("777"), "owner": M.resolved("owner", _p("owner")), "group": M.resolved("group", _p("group"))}
    out.append(Case("files.link", "present", {"present": TRUE, "touch": FALSE, "target": K("/t")}, stat=lambda ii: _stat(ii, "link", **la), run=rl))
    out.append(Case("files.link", "absent", {"present": FALSE, "target": K("/t")}, stat=lambda ii: NONE))
    for op in ("upload_content", "upload", "template", "template_content"):
        out.append(Case("files." + op, "same content", {}, stat=lambda ii: _stat(ii, "file", sha=SHA, **A("file_mode"))))
    for text in ("", " text \n\n", "gr\u00fcn\r\n", b"\x00\xff \n"):
        raw = text.encode() if isinstance(text, str) else text
        out.append(Case("files.upload_content", f"same content {text!r}", {"content": K(text)}, stat=lambda ii, raw=raw: _stat(ii, "file", sha=K(hashlib.sha512(raw).digest()), **A("file_mode"))))
    out.append(Case("files.upload_content", "same text", {"content": K("text")}, stat=lambda ii: _stat(ii, "file", sha=SHA, **A("file_mode"))))
    fs = lambda ii: _stat(ii, "file", mode=K("644"), owner=K("o"), group=K("g"))
    for text, lab in ((b"a\nfoo\nb\n", "in the middle"), (b"foo\n", "only line"), (b"a\nfoo", "last without newline"), (b"a\n\nfoo\n\n", "empty lines")):
        for ws in (TRUE, FALSE):
            out.append(Case("files.line", f"present, {lab}, ignore_whitespace={ws.v}", {"line": K("foo"), "present": TRUE, "regex": NONE, "ignore_whitespace": ws}, stat=fs, content=text))
    out.append(Case("files.line", "present, other whitespace", {"line": K("foo"), "present": TRUE, "regex": NONE, "ignore_whitespace": TRUE}, stat=fs, content=b"a\n  foo\t\n"))
    out.append(Case("files.line", "present, given with whitespace", {"line": K(" foo "), "present": TRUE, "regex": NONE, "ignore_whitespace": TRUE}, stat=fs, content=b"a\nfoo\n"))
    for text in (b"a\nfoobar\nb\n", b"", b"barfoo\n", b"a\n"):
        for ws in (TRUE, FALSE):
            out.append(Case("files.line", f"absent from {text!r}, ignore_whitespace={ws.v}", {"line": K("foo"), "present": FALSE, "regex": NONE, "ignore_whitespace": ws}, stat=fs, content=text))
    out.append(Case("files.line", "absent, other whitespace", {"line": K("foo"), "present": FALSE, "regex": NONE, "ignore_whitespace": FALSE}, stat=fs, content=b" foo\n"))
    out.append(Case("files.line", "absent from missing file", {"line": K("foo"), "present": FALSE, "regex": NONE}, stat=lambda ii: NONE))
    nn = {"uid": NONE, "group": NONE, "groups": NONE, "password_hash": NONE, "home": NONE, "shell": NONE, "comment": NONE}
    U = lambda lab, entry, **kw: out.append(Case("system.user", lab, {"present": TRUE, **nn, **kw}, user=entry))
    U("nothing requested", _user(("b", "a")))
    U("nothing requested, appending", _user(("b", "a")), append_groups=TRUE)
    U("all requested", _user(("b", "a")), uid=K(1000), group=K("g"), groups=_lst("a", "b"), password_hash=K("!x"), home=K("/h"), shell=K("/s"), comment=K("c"), append_groups=FALSE)
    U("groups in another order", _user(("a", "b")), groups=_lst("b", "a"), append_groups=FALSE)
    U("groups in the observed order", _user(("b", "a")), groups=_lst("b", "a"), append_groups=FALSE)
    U("groups appended which are there", _user(("c", "a", "b")), groups=_lst("b"), append_groups=TRUE)
    U("several groups appended which are there", _user(("c", "a", "b")), groups=_lst("b", "a"), append_groups=TRUE)
    U("no groups", _user(()), groups=_lst(), append_groups=FALSE)
    U("uid zero", _user((), uid=K(0)), uid=K(0))
    U("empty comment", _user((), gecos=K("")), comment=K(""))
    U("without password entry", _user((), password_hash=NONE))
    out.append(Case("system.user", "absent", {"present": FALSE}, user=lambda ii: NONE))
    G = lambda gid: (lambda ii: Inst(M.lookup(ii, C + "GroupEntry"), {"name": K("g"), "gid": K(gid), "members": ListObj([], ii.epoch)}, ii.epoch))
    out.append(Case("system.group", "present", {"present": TRUE, "gid": K(7)}, group=G(7)))
    out.append(Case("system.group", "present, any gid", {"present": TRUE, "gid": NONE}, group=G(7)))
    out.append(Case("system.group", "present, gid zero", {"present": TRUE, "gid": K(0)}, group=G(0)))
    out.append(Case("system.group", "absent", {"present": FALSE}, group=lambda ii: NONE))
    for m in ("apt", "pacman", "portage"):
        for pk in (("a",), ("b", "a"), ("a", "b"), ("a", "a"), ("b", "a", "b")):
            out.append(Case(m + ".package", f"installed {' '.join(pk)}", {"packages": _lst(*pk), "present": TRUE}, run=_pkg({"a", "b"})))
            out.append(Case(m + ".package", f"not installed {' '.join(pk)}", {"packages": _lst(*pk), "present": FALSE}, run=_pkg({"c"})))
        out.append(Case(m + ".package", "none", {"packages": _lst()}, run=_pkg({"c"})))
    for um in (TRUE, FALSE):
        S_ = lambda lab, act, unit, **kw: out.append(Case("systemd.service", lab, {"user_mode": um, **kw}, run=_systemctl(act, unit)))
        S_("nothing requested", b"active", b"enabled", state=NONE, enabled=NONE)
        S_("started", b"active", b"disabled", state=K("started"), enabled=NONE)
        S_("starting", b"activating", b"disabled", state=K("started"), enabled=NONE)
        S_("stopped", b"inactive", b"enabled", state=K("stopped"), enabled=NONE)
        S_("failed", b"failed", b"enabled", state=K("stopped"), enabled=NONE)
        S_("enabled", b"inactive", b"enabled", state=NONE, enabled=TRUE)
        S_("disabled", b"active", b"disabled", state=K("started"), enabled=FALSE)
        S_("started and enabled", b"active", b"enabled", state=K("started"), enabled=TRUE)
        S_("stopped and disabled", b"inactive", b"disabled", state=K("stopped"), enabled=FALSE)
    gs = lambda ii: _stat(ii, "dir", mode=K("755"), owner=K("o"), group=K("g"))
    for br in (NONE, K("main")):
        out.append(Case("git.repo", "newest commit", {"url": K("https://u"), "branch_or_tag": br, "update": TRUE}, stat=gs, run=_git(b"abcdef0" * 6, b"abcdef0" * 6)))
        out.append(Case("git.repo", "no update", {"url": K("https://u"), "branch_or_tag": br, "update": FALSE}, stat=gs, run=_git(b"abcdef0" * 6, b"0fedcba" * 6)))
    return out


def converged(i, ctx):
    ctx.rule("idle", "An operation on a system that already is in the requested state issues no modifying action.")
    ctx.rule("unchanged", "It succeeds, and reports that nothing changed, in real and dry runs.")
    ctx.rule("nested", "An operation composed of others is unchanged if they are.")
    ops = {}
    for c in _cases():
        ops.setdefault(c.op, []).append(c)
    for op, cases in ops.items():
        qual = M.OPERATIONS[op]
        ctx.functions.add(M.unwrap(M.lookup(i, qual)).qualname)
        for c in cases:
            _converged_case(i, ctx, op, qual, c)
    for p in by_dry(_tree_runs(i, ctx, "s", "/d", (None, ""))):
        r = result(p) if p.kind == "return" else None
        ctx.check(r is not None and r[0] is True and r[1] is False, "nested", "upload_dir", f"upload_dir {'raises' if p.kind == 'raise' else 'reports a change'} although none of its parts changed anything", p)


def _digests(cfg):
    """Digests of constants."""
    from ..ext import _hash_obj

    def make(name):
        def h(ii, a, k, n):
            o = _hash_obj(ii, "hashlib." + name, list(a[:1]) or ([k["string"]] if "string" in k else []))

            def fold(meth, generic):
                def d(i2, aa, kk, nn):
                    parts = o.attrs["$state"].a[1:]
                    if all(isinstance(x, K) and isinstance(x.v, bytes) for x in parts):
                        return K(getattr(getattr(hashlib, name)(b"".join(x.v for x in parts)), meth)())
                    return generic.fn(i2, aa, kk, nn)
                return PyFn(meth, d)
            for meth in ("digest", "hexdigest"):
                o.attrs[meth] = fold(meth, o.attrs[meth])
            return o
        return h
    for name in ("sha512", "sha256", "sha1", "md5"):
        cfg.ext["hashlib." + name] = make(name)

    def new(ii, a, k, n):
        nm = freeze(a[0] if a else k.get("name"))
        m = make(nm.v.lower().replace("-", "")) if isinstance(nm, K) else None
        return m and m(ii, list(a[1:2]) or ([k["data"]] if "data" in k else []), {}, n)
    cfg.ext["hashlib.new"] = new


def _converged_case(i, ctx, op, qual, c):
    cfg = M.ops_config(i)
    _digests(cfg)
    pre = "fora.connection.Connection."

    def ans(name, make):
        def h(ii, b, n, fn):
            r = make(ii, b)
            M.remote(ii, name, b, n, freeze(r) if not isinstance(r, Inst) else None)
            return r
        cfg.intercepts[pre + name] = h
    if c.stat:
        ans("stat", lambda ii, b: c.stat(ii))
    if c.user:
        ans("query_user", lambda ii, b: c.user(ii))
    if c.group:
        ans("query_group", lambda ii, b: c.group(ii))
    if c.content is not None:
        ans("download", lambda ii, b: K(c.content))
        ans("download_or", lambda ii, b: K(c.content))

    def run(ii, b, n, fn):
        t = b.get("command")
        cmd = Cmd(freeze(t))
        e = M.remote(ii, "run", b, n, None)
        if not read_only(cmd):
            return _completed(ii)
        r = c.run(ii, cmd) if c.run else None
        if r is None:
            raise Unsupported(f"answer of {show(freeze(t))[:80]}")
        rc = r.attrs["returncode"]
        chk = b.get("check", TRUE)
        if rc is not K(0):
            if isinstance(chk, S):
                chk = K(ii.decide(truthy_atom(chk)))
            if chk is not FALSE:
                ex = ii.make_exc("subprocess.CalledProcessError", K("cmd"), returncode=rc, cmd=t, output=r.attrs["stdout"], stdout=r.attrs["stdout"], stderr=r.attrs["stderr"])
                raise AbsRaise(ex, n, ii.loc(n))
        return r
    cfg.intercepts[pre + "run"] = run
    fixed = {"name": NONE}
    fixed.update(c.fixed)
    lab = f"{op} ({c.label})"
    n = 0
    for p in ctx.take(explore(i, cfg, M.op_entry(qual, fixed=fixed), 400), lab):
        if any(v is False and k.op == "eq" and SHA in k.a for k, v in p.facts.d.items()):
            continue  # other content than observed
        if p.kind == "raise":
            if any(e.kind == "remote" for e in p.events):
                ctx.viol("unchanged", f"{op}|raise|{c.label}", f"{lab} raises {p.excname} although the system already is in the requested state", p)
            continue
        r = result(p)
        if r is None:
            continue
        n += 1
        mut = [e for e in p.events if e.kind == "remote" and (e.name == "upload" or (e.name == "run" and not read_only(Cmd(freeze(e.args["command"])))))]
        ctx.check(not mut, "idle", f"{op}|{c.label}", f"{lab}: issues {show(freeze(mut[0].args.get('command', K('upload'))))[:120] if mut else ''} although the system already is in the requested state", p, mut[0].loc if mut else None)
        ctx.check(r[0] is True and r[1] is False, "unchanged", f"{op}|{c.label}", f"{lab}: {'fails' if r[0] is False else 'reports a change'} although the system already is in the requested state", p)
    if not n:
        ctx.undec(f"{lab}: no completed path")


# --------------------------------------------------------------------------
# concrete contents for files.line

TEXTS = [b"", b"foo\n", b"foo", b"a\nfoo\nb\n", b"a\nfoo", b"\n\nfoo\n\n", b"a\r\nb\r\n", b"a\x0cb\nfoo\nc\x0bd\n", "a\u2028b\nfoo\n\x85\u2029\n".encode(), b"\xff\xfe\nfoo\n\x80\n", b"foo\nfoo\nbar\n", b" foo\t\nfoobar\n", b"a\x1cb\nc\x1d\x1e\nfoo\n", b"\xef\xbb\xbfx\nfoo\n"]


def line_exact(i, ctx):
    ctx.rule("line-exact", "For contents with every kind of line separator and bytes that are not text: adding a line appends exactly that line, removing it drops exactly the lines that match, and every other byte is kept; lines end at newlines only. A missing newline at the end of the file may be added.")
    qual = M.OPERATIONS["files.line"]
    n = 0
    for text in TEXTS:
        for present in (True, False):
            for rx in (None, "^fo+$"):
                for ws in (True, False):
                    want = _edited(text, b"foo", present, rx, ws)
                    c = Case("files.line", "", {"line": K("foo"), "present": K(present), "regex": K(rx), "ignore_whitespace": K(ws), "backup": FALSE, "path": K("/p/file")})
                    cfg = M.ops_config(i)
                    _regex(cfg)

                    def ans(name, make):
                        def h(ii, b, n, fn):
                            r = make(ii)
                            M.remote(ii, name, b, n, freeze(r) if not isinstance(r, Inst) else None)
                            return r
                        cfg.intercepts["fora.connection.Connection." + name] = h
                    ans("stat", lambda ii: _stat(ii, "file", mode=K("644"), owner=K("o"), group=K("g")))
                    ans("download", lambda ii: K(text))
                    ans("download_or", lambda ii: K(text))
                    lab = f"{'adding to' if present else 'removing from'} {text!r}" + (" by regex" if rx else "" if ws else ", exact whitespace")
                    for p in ctx.take(explore(i, cfg, M.op_entry(qual, fixed={"name": NONE, "check": TRUE, **c.fixed}), 200), lab):
                        if p.facts.known(DRY_ATOM) is not False:
                            continue
                        r = result(p) if p.kind == "return" else None
                        ups = [e for e in p.events if e.kind == "remote" and e.name == "upload"]
                        if not ctx.check(r is not None and r[0] is True, "line-exact", "raise|" + lab, f"files.line: {lab} {'raises ' + p.excname if p.kind == 'raise' else 'fails'}", p):
                            continue
                        if want == text:
                            ctx.check(not ups, "line-exact", "idle|" + lab, f"files.line: {lab} uploads {show(freeze(ups[-1].arg('content')))[:80] if ups else ''} although there is nothing to do", p)
                            continue
                        got = freeze(ups[-1].arg("content")) if ups else K(text)
                        if isinstance(got, K) and isinstance(got.v, str):
                            got = K(got.v.encode("utf-8", "surrogateescape"))
                        if not isinstance(got, K):
                            ctx.undec(f"files.line: uploaded content not evaluated: {show(got)[:60]}")
                            continue
                        n += 1
                        ok = got.v == want or want and not want.endswith(b"\n") and got.v == want + b"\n"
                        ctx.check(ok, "line-exact", f"{present}|{bool(rx)}|{ws}", f"files.line: {lab} uploads {got.v!r} instead of {want!r}", p, ups[-1].loc if ups else None)
    if not n:
        ctx.undec("files.line: no content evaluated")


def _regex(cfg):
    """Regular expressions on constants."""
    import re

    def flags(v):
        if v is None:
            return 0
        v = freeze(v)
        if isinstance(v, K) and isinstance(v.v, int):
            return int(v.v)
        nm = [x.a[0] for x in subterms(v) if isinstance(x, S) and x.op == "ext"] if isinstance(v, S) else []
        if isinstance(v, S) and v.op in ("ext", "bitor", "or") or nm:
            return sum(int(getattr(re, x.rsplit(".", 1)[-1], 0)) for x in set(nm))
        return None

    def run(meth):
        def h(ii, a, k, n):
            a = list(a) + [None] * 3
            pat, s, fl = a[0], k.get("string", a[1]), flags(k.get("flags", a[2]))
            pat = k.get("pattern", pat)
            if not (isinstance(pat, K) and isinstance(s, K)) or fl is None:
                return None
            try:
                m = getattr(re, meth)(pat.v, s.v, fl)
            except re.error:
                ii.raise_("re.error", K("bad pattern"), n)
            except TypeError:
                ii.raise_("TypeError", K("pattern type"), n)
            return NONE if m is None else Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE}, ii.epoch)
        return h
    for meth in ("search", "match", "fullmatch"):
        cfg.ext["re." + meth] = run(meth)

    def comp(ii, a, k, n):
        pat, fl = a[0], k.get("flags", a[1] if len(a) > 1 else None)
        if not isinstance(pat, K):
            return None
        return Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "pattern": pat, **{m: PyFn(m, lambda i2, aa, kk, nn, m=m: run(m)(i2, [pat, aa[0] if aa else kk["string"]], {"flags": fl} if fl is not None else {}, nn)) for m in ("search", "match", "fullmatch")}}, ii.epoch)
    cfg.ext["re.compile"] = comp


def _edited(text, line, present, rx, ws):
    import re
    ls = text.split(b"\n")
    tail = ls.pop()
    ls = [x + b"\n" for x in ls] + ([tail] if tail else [])

    def match(l):
        l = l[:-1] if l.endswith(b"\n") else l
        if rx:
            return re.search(rx.encode(), l) is not None
        return l.strip() == line if ws else l == line
    if present:
        if any(match(l) for l in ls):
            return text
        return b"".join(ls) + (b"\n" if ls and not ls[-1].endswith(b"\n") else b"") + line + b"\n"
    return b"".join(l for l in ls if not match(l))


# --------------------------------------------------------------------------
# C31: modes are compared as numbers, however they are written


def notation(i, ctx):
    ctx.rule("notation", "A mode means the same however it is written (0755 or 755), whether it is given to the operation or by the defaults around it.")
    from .core import make_world
    ctx.functions |= {"fora.types.ScriptWrapper.defaults", "fora.connection.Connection.resolve_defaults"}
    d = M.lookup(i, "fora.types.ScriptWrapper.defaults")
    for op, arg, kind in (("files.directory", "dir_mode", "dir"), ("files.file", "file_mode", "file")):
        for given, seen in (("0755", "755"), ("755", "755"), ("00640", "640"), ("0", "0"), ("000", "0"), ("02750", "2750")):
            for scope in (False, True):
                def entry(ii):
                    host, conn, script = make_world(ii)
                    conn.attrs["base_settings"] = ii.instantiate(M.lookup(ii, "fora.remote_settings.RemoteSettings"), [], {k: K(v) for k, v in (("as_user", "root"), ("as_group", "root"), ("owner", "o"), ("group", "g"), ("file_mode", "600"), ("dir_mode", "700"), ("umask", "77"), ("cwd", "/tmp"))}, None)
                    f = M.lookup(ii, M.OPERATIONS[op])
                    kw = {"name": NONE, "path": K("/p"), "present": TRUE, "touch": FALSE}

                    def body(v=None):
                        ii.notes["res"] = ii.call(f, [], dict(kw) if scope else {**kw, "mode": K(given)}, None)
                    if scope:
                        ii.run_with(ii.call(BoundV(script, d), [], {arg: K(given)}, None), body, None)
                    else:
                        body()
                    return ii.notes["res"]
                cfg = Config()
                M.nested_ops(cfg)
                M.host_vars_opaque(cfg)
                M.log_intercepts(cfg, i)
                M.active_host(cfg)
                pre = "fora.connection.Connection."
                for nm in ("resolve_user", "resolve_group"):
                    cfg.intercepts[pre + nm] = lambda ii, b, n, fn: b.get("user", b.get("group"))
                cfg.intercepts[pre + "stat"] = lambda ii, b, n, fn: _stat(ii, "dir" if freeze(b["path"]) is not K("/p") else kind, mode=K(seen), owner=K("o"), group=K("g"))
                cfg.intercepts[pre + "run"] = lambda ii, b, n, fn: (M.remote(ii, "run", b, n, None), _completed(ii))[1]
                lab = f"{op}, mode {given}{' of the defaults' if scope else ''}"
                n = 0
                for p in ctx.take(explore(i, cfg, entry, 100), lab):
                    if p.kind == "raise":
                        ctx.viol("notation", f"{op}|raise", f"{lab}, on a {kind} of mode {seen}: raises {p.excname}", p)
                        n += 1
                        continue
                    r = result(p)
                    if r is None:
                        continue
                    n += 1
                    mut = [e for e in p.events if e.kind == "remote" and e.name == "run" and not read_only(Cmd(freeze(e.args["command"])))]
                    ctx.check(not mut and r[1] is False, "notation", op, f"{lab}, on a {kind} of mode {seen}: reports a change", p, mut[0].loc if mut else None)
                if not n:
                    ctx.undec(f"{lab}: no completed path")


# --------------------------------------------------------------------------
# C04: the generic package and service operations


MANAGERS = {"system.package": {"apt-get": "fora.operations.apt.package", "pacman": "fora.operations.pacman.package", "emerge": "fora.operations.portage.package"},
            "system.service": {"systemctl": "fora.operations.systemd.service"}}

_PART = re.compile(r"^[({]?\s*(?:type|command -v|which|hash)\s+((?:\S*>\S+\s+)*)(\S+?)((?:\s+\S*>\S+)*)\s*(?:&&\s*echo\s+(\S+?)\s*)?;?\s*[)}]?$")


def _lookup_answer(script, have):
    """Exit status and output of a chain of lookups ``type X && echo X || ...`` where only the given commands exist; None for another script."""
    for part in script.split("||"):
        part = part.strip()
        m = re.match(r"^echo\s+(\S+)$", part)
        if m:
            return 0, m.group(1).strip("'\"") + "\n"
        m = _PART.match(part)
        if not m:
            return None
        redir = (m.group(1) + m.group(3)).split()
        quiet = any(r.startswith((">", "1>", "&>")) for r in redir)
        if m.group(2).strip("'\"") in have:
            w = m.group(2).strip("'\"")
            return 0, ("" if quiet else w + " is /usr/bin/" + w + "\n") + (m.group(4).strip("'\"") + "\n" if m.group(4) else "")
    return 1, ""


def dispatch(i, ctx):
    ctx.rule("dispatch", "The generic package and service operations do what was requested with the operation of the manager that exists on the remote system, exactly once, and return its result.")
    ctx.rule("no-manager", "Without a supported manager they fail: with an OperationError, or with a failed result if check=False, and modify nothing.")
    for op, managers in MANAGERS.items():
        qual = M.OPERATIONS[op]
        base = M.unwrap(M.lookup(i, qual))
        ctx.functions.add(base.qualname)
        for have in [None] + list(managers):
            cfg = M.ops_config(i)

            def run(ii, b, n, fn):
                cmd = Cmd(freeze(b["command"]))
                if not read_only(cmd):
                    M.remote(ii, "run", b, n, None)
                    return _completed(ii)
                s = shell_script(cmd) if cmd.prog in SHELLS else None
                r = _lookup_answer(s, {have}) if s is not None else None
                if r is None:
                    raise Unsupported(f"answer of {show(freeze(b['command']))[:80]}")
                chk = freeze(b.get("check", TRUE))
                if r[0] and chk is not FALSE:
                    if chk is not TRUE:
                        raise Unsupported("check of the lookup")
                    raise AbsRaise(ii.make_exc("subprocess.CalledProcessError", K("cmd"), returncode=K(r[0]), cmd=b["command"], output=K(r[1].encode()), stdout=K(r[1].encode()), stderr=K(b"")), n, ii.loc(n))
                return _completed(ii, r[1].encode(), r[0])
            cfg.intercepts["fora.connection.Connection.run"] = run

            def nested(ii, fn, args, kwargs, n):
                f = M.unwrap(fn)
                if f is base or not f.module.name.startswith("fora.operations.") or not any(x.arg == "op" for x in f.node.args.args):
                    return NotImplemented
                b = ii.bind_args(f, args, dict(kwargs), n)
                b.pop("op", None)
                ii.emit("nestedop", f.qualname, b, n)
                r = Inst(M.lookup(ii, "fora.operations.api.OperationResult"), {"success": TRUE, "changed": M.sym("changed", T_BOOL), "initial": DictObj([], ii.epoch), "final": DictObj([], ii.epoch), "failure_message": NONE}, ii.epoch)
                ii.notes["res"] = r
                return r
            cfg.op_hook = nested
            lab = f"{op} with {have or 'no supported manager'}"

            def entry(ii):
                v = M.op_entry(qual)(ii)
                ii.notes["kw"] = dict(ii.last_kw)
                return v
            for p in ctx.take(explore(i, cfg, entry, 400), lab):
                ev = [e for e in p.events if e.kind == "nestedop"]
                acts = [e for e in p.events if is_mutation(e)]
                if have is None:
                    chk = p.facts.known(truthy_atom(M.sym("check", T_BOOL)))
                    r = result(p) if p.kind == "return" else None
                    if p.kind == "raise":
                        ok = p.excname.endswith("OperationError") and chk is True
                    else:
                        ok = r is not None and r[0] is False and chk is False
                    ctx.check(ok and not ev and not acts, "no-manager", op, f"{lab}{', check=False' if chk is False else ''}: {'raises ' + p.excname if p.kind == 'raise' else 'returns'}{', after having modified something' if ev or acts else ''}", p)
                    continue
                if p.kind == "raise":
                    ctx.viol("dispatch", f"{op}|raise", f"{lab}: raises {p.excname}", p)
                    continue
                ok = len(ev) == 1 and not acts and ev[0].name == managers[have]
                ctx.check(ok, "dispatch", op, f"{lab}: calls {', '.join(e.name for e in ev) or 'no operation'}", p)
                if not ok:
                    continue
                for k, want in p.notes["kw"].items():
                    got = ev[0].args.get(k)
                    same = got is not None and (freeze(got) is freeze(want) or p.facts.known(eq_atom(freeze(got), freeze(want))) is True)
                    ctx.check(same, "dispatch", f"{op}|{k}", f"{lab}: is given {k} = {show(freeze(got))[:60] if got is not None else 'nothing'} instead of what was requested", p, ev[0].loc)
                ctx.check(p.value is p.notes["res"], "dispatch", f"{op}|result", f"{lab}: does not return the result of the operation", p)
