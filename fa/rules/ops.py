"""Rules over the path summaries of the operations (what they do on the remote system)."""
from __future__ import annotations

import copy

from ..terms import (Facts, K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, disj, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT)
from ..objects import Inst, ListObj, DictObj, TupleV, freeze, cls_name, FnV
from ..interp import explore
from .. import model as M
from ..effects import Cmd, cmd_of, is_mutation, read_only, split_owner, shell_script, SHELLS

DRY = M.sym("args.dry", T_BOOL)
DRY_ATOM = truthy_atom(DRY)

_cache = {}


def operations(i, ctx):
    ops = M.discover_operations(i)
    for need in M.REQUIRED_OPERATIONS:
        if need not in ops:
            raise M.AnchorMissing("operation " + need)
    return ops


def run_op(i, ctx, name, qual, fail=(), fixed=None, key="", limit=60000, **kw):
    k = (name, tuple(fail), key)
    if k not in _cache:
        cfg = M.ops_config(i, fail)
        f = {"name": NONE}
        f.update(fixed or {})
        _cache[k] = explore(i, cfg, M.op_entry(qual, fixed=f, **kw), max_paths=limit)
    ex = _cache[k]
    base = M.unwrap(M.lookup(i, qual))
    ctx.functions.add(base.qualname)
    return ctx.take(ex, name)


def all_ops(i, ctx, fail=(), **kw):
    for name, qual in sorted(operations(i, ctx).items()):
        yield name, qual, run_op(i, ctx, name, qual, fail, **kw)
    if not fail:
        for name in ("system.package", "system.service"):
            qual = M.OPERATIONS[name]
            yield name, qual, run_op(i, ctx, name, qual, fail, **kw)


def result(p):
    """(success, changed) truth of the returned OperationResult on the path, None when it isn't one."""
    v = p.value
    if isinstance(v, Inst) and cls_name(v.cls).endswith("OperationResult"):
        s, c = v.attrs.get("success"), v.attrs.get("changed")
        return p.facts.known(truthy_atom(freeze(s))), p.facts.known(truthy_atom(freeze(c)))
    return None


def by_dry(paths):
    """Paths whose result depends on the dry flag in a way no branch decided are split by it."""
    for p in paths:
        r = result(p) if p.kind == "return" else None
        if r is None or None not in r or p.facts.known(DRY_ATOM) is not None:
            yield p
            continue
        for v in (True, False):
            g = p.facts.copy()
            try:
                g.assume(DRY_ATOM, v)
                if not g.consistent():
                    continue
            except M.Infeasible:
                continue
            q = copy.copy(p)
            q.facts = g
            yield q


def where(e):
    return e.loc


def describe(e):
    if e.name == "run":
        c = cmd_of(e)
        return "run " + (c.prog or "?") + "".join(" " + f for f in c.flags[:3]) + "".join(" " + t.v for t in c.operands[:1] if isinstance(t, K))
    return e.name


# --------------------------------------------------------------------------
# C01


def dry_run_safe(i, ctx):
    ctx.rule("dry-no-mutation", "On every path of every operation on which the dry flag is not known to be false, no upload is issued and every "
             "remote command is in the read-only command table.")
    ctx.rule("dry-decided-before", "A modifying remote action is only reachable after a branch on the dry flag took its false side.")
    for name, qual, paths in all_ops(i, ctx):
        for p in paths:
            dry = p.facts.known(DRY_ATOM)
            if dry is False:
                # the decision must precede the first mutation: facts are ordered by assumption
                idx = list(p.facts.d).index(DRY_ATOM) if DRY_ATOM in p.facts.d else None
                for e in p.events:
                    if is_mutation(e) and idx is not None:
                        ctx.check(e.nfacts > idx, "dry-decided-before", f"{name}|{describe(e)}",
                                  f"{name}: '{describe(e)}' is issued before the dry flag is consulted", p, e.loc)
                continue
            bad = [e for e in p.events if is_mutation(e)]
            if not bad:
                ctx.ok("dry-no-mutation")
            for e in bad:
                ctx.viol("dry-no-mutation", f"{name}|{describe(e)}",
                         f"{name}: '{describe(e)}' is issued on a path that is also taken in a dry run", p, e.loc)


# --------------------------------------------------------------------------
# C02


def change_report(i, ctx):
    ctx.rule("mutated-implies-changed", "On every non-dry path that returns success after a modifying action, the reported result has changed=True.")
    ctx.rule("changed-implies-mutated", "On every non-dry path that returns success with changed=True, at least one modifying action was issued.")
    ctx.rule("changed-decided", "The changed flag is a definite boolean on every successful path.")
    ctx.rule("dry-agrees", "A dry path and the real paths that extend its decisions report the same changed flag.")
    for name, qual, paths in all_ops(i, ctx):
        dryp, realp = [], []
        for p in by_dry(paths):
            if p.kind != "return":
                continue
            r = result(p)
            if r is None:
                continue
            success, changed = r
            if success is not True:
                continue
            if name.startswith("files.upload_dir"):
                continue
            mut = [e for e in p.events if is_mutation(e)]
            dry = p.facts.known(DRY_ATOM)
            if changed is None:
                ctx.undec(f"{name}: changed flag not decided: {show(freeze(p.value.attrs.get('changed')))}")
                continue
            ctx.ok("changed-decided")
            for dv in (True, False):
                d = _decisions(p, dv)
                if d is not None:
                    (dryp if dv else realp).append((p, changed, d))
            if dry is not True:
                if dry is False or mut:
                    if mut:
                        ctx.check(changed, "mutated-implies-changed", f"{name}|{describe(mut[0])}",
                                  f"{name}: reports changed=False although it issued '{describe(mut[0])}'", p, mut[0].loc)
                    if changed:
                        ctx.check(bool(mut), "changed-implies-mutated", f"{name}|{_why_changed(p)}",
                                  f"{name}: reports changed=True although no modifying action was issued ({_why_changed(p)})", p)
        for p, changed, d in dryp:
            for q, ch, d2 in realp:
                if _shapes(p) == _shapes(q) and all(d2.get(k) == v for k, v in d.items()):
                    ctx.check(ch == changed, "dry-agrees", f"{name}",
                              f"{name}: dry run reports changed={changed} where the real run reports changed={ch}", p)


def _decisions(p, dry):
    """The decisions of the path with the dry flag set to the given value, None if it contradicts them."""
    known = p.facts.known(DRY_ATOM)
    if known is not None and known != dry:
        return None
    only = Facts()
    only.assume(DRY_ATOM, dry)
    out = {}
    for k, v in p.facts.d.items():
        if k is DRY_ATOM:
            continue
        t = only.deep(k)
        if isinstance(t, K):
            if bool(t.v) != v:
                return None
            continue
        out[t] = v
    return out


def _shapes(p):
    return {k: v for k, v in p.notes.items() if not k.startswith("$")}


def _why_changed(p):
    v = p.value
    a, b = v.attrs.get("initial"), v.attrs.get("final")
    out = []
    if isinstance(a, DictObj) and isinstance(b, DictObj):
        for k, x in b.pairs:
            for k2, y in a.pairs:
                if k is k2 and not p.facts.iseq(freeze(x), freeze(y)):
                    out.append(str(k.v))
    return "differs: " + ",".join(out)


# --------------------------------------------------------------------------
# Remote file system state along a path


class Node:
    def __init__(self):
        self.known = False      # was it looked at
        self.exists = None
        self.type = None
        self.attr = {}
        self.base = None
        self.touched = False


def simulate(p, path):
    """State of the remote node ``path`` after the events of p (value terms)."""
    n = Node()
    f = p.facts
    for e in p.events:
        if e.kind != "remote":
            continue
        if e.name == "stat" and e.arg("path") is path and n.base is None and not n.touched:
            n.base = e.res
            n.known = True
            isn = f.isnone(e.res)
            n.exists = None if isn is None else not isn
            if n.exists:
                n.type = mk("attr", e.res, "type")
                for a in ("mode", "owner", "group", "sha512sum"):
                    n.attr[a] = mk("attr", e.res, a)
        elif e.name == "upload" and e.arg("file") is path:
            new = n.exists is not True
            n.exists = True
            n.type = K("file")
            n.touched = True
            n.attr["content"] = e.arg("content")
            for a in ("mode", "owner", "group"):
                v = e.arg(a, NONE)
                if v is None or f.isnone(v):
                    if new:
                        n.attr[a] = mk("default", a)
                else:
                    n.attr[a] = v
        elif e.name == "run":
            c = cmd_of(e)
            ops = c.operands
            if c.prog == "mkdir" and path in ops:
                if n.exists is not True:
                    n.exists, n.type = True, K("dir")
                    for a in ("owner", "group", "mode"):
                        n.attr[a] = mk("default", a)
                    if "mode" in c.opts:
                        n.attr["mode"] = c.opts["mode"]
                n.touched = True
            elif c.prog == "touch" and path in ops:
                if n.exists is not True:
                    n.exists, n.type = True, K("file")
                    for a in ("owner", "group", "mode"):
                        n.attr[a] = mk("default", a)
                n.touched = True
                n.attr["touched"] = TRUE
            elif c.prog == "chmod" and len(ops) >= 2 and path in ops[1:]:
                n.attr["mode"] = ops[0]
            elif c.prog == "chown" and len(ops) >= 2 and path in ops[1:]:
                o, g = split_owner(ops[0])
                if n.type is K("link") or (n.type is not None and f.iseq(n.type, K("link"))):
                    if not c.flag("--no-dereference", "-h"):
                        continue
                if o is not None:
                    n.attr["owner"] = o
                if g is not None:
                    n.attr["group"] = g
                isdir = n.type is K("dir") or (n.type is not None and f.iseq(n.type, K("dir")))
                islink = n.type is K("link") or (n.type is not None and f.iseq(n.type, K("link")))
                if not isdir and not islink and "mode" in n.attr and n.attr["mode"] is not None:
                    n.attr["mode"] = mk("chowned", n.attr["mode"])
            elif c.prog == "chgrp" and len(ops) >= 2 and path in ops[1:]:
                n.attr["group"] = ops[0]
            elif c.prog == "rmdir" and path in ops:
                n.exists = mk("empty_only")
            elif c.prog in ("rm", "unlink") and path in ops:
                isdir = n.type is K("dir") or (n.type is not None and f.iseq(n.type, K("dir")))
                if c.prog == "rm" and isdir and not c.flag("-r", "-R", "--recursive"):
                    continue
                n.exists = False
                n.attr = {}
            elif c.prog == "ln" and len(ops) == 2 and ops[1] is path and c.flag("-s", "--symbolic"):
                if n.exists is True:
                    if not c.flag("-f", "--force"):
                        continue
                    if not c.flag("-n", "-T", "--no-dereference", "--no-target-directory"):
                        n.attr["target"] = mk("maybe_inside", ops[0])
                        continue
                    n.attr["owner"] = mk("default", "owner")
                    n.attr["group"] = mk("default", "group")
                else:
                    n.attr["owner"] = mk("default", "owner")
                    n.attr["group"] = mk("default", "group")
                n.exists, n.type = True, K("link")
                n.attr["target"] = ops[0]
                n.touched = True
    return n


def same(f, a, b):
    if a is None or b is None:
        return False
    return a is b or f.iseq(a, b) is True


def stdout_target(p, v, path):
    """Is v the decoded output of reading the link target of path?"""
    return None


def _readlink_value(p, path):
    for e in p.events:
        if e.kind == "remote" and e.name == "run":
            c = cmd_of(e)
            if c.prog == "readlink" and path in c.operands:
                return e.res
    return None


def fs_ops(i):
    return {
        "files.directory": ("dir", "path", {"mode": "dir_mode", "owner": "owner", "group": "group"}),
        "files.file": ("file", "path", {"mode": "file_mode", "owner": "owner", "group": "group"}),
        "files.link": ("link", "path", {"owner": "owner", "group": "group"}),
        "files.upload_content": ("file", "dest", {"mode": "file_mode", "owner": "owner", "group": "group"}),
        "files.upload": ("file", "dest", {"mode": "file_mode", "owner": "owner", "group": "group"}),
        "files.template_content": ("file", "dest", {"mode": "file_mode", "owner": "owner", "group": "group"}),
        "files.template": ("file", "dest", {"mode": "file_mode", "owner": "owner", "group": "group"}),
    }


PARAM_OF = {"dir_mode": "mode", "file_mode": "mode", "owner": "owner", "group": "group"}


def target_path(p, pname):
    """The node the operation works on: its path parameter, or the path derived from it that it looked at first."""
    base = M.sym(pname, T_STR)
    for e in p.events:
        if e.kind == "remote" and e.name == "stat":
            t = e.arg("path")
            if t is base or base in subterms(t):
                return t
    return base


def _success_real(p):
    if p.kind != "return":
        return False
    r = result(p)
    return r is not None and r[0] is True and p.facts.known(DRY_ATOM) is not True


def convergence(i, ctx):
    ctx.rule("fs-exists", "After a successful real run with present requested, the node exists with the requested kind; with absent requested it does not exist.")
    ctx.rule("fs-attr", "After a successful real run, each of mode, owner and group equals the resolved requested value: set by the last command that "
             "influences it, or compared equal to the value observed before (a later chown of a non-directory clears set-id bits).")
    ctx.rule("fs-content", "After a successful real run, the file content is the requested content: uploaded, or its digest compared equal to the observed digest.")
    ctx.rule("fs-target", "After a successful real run, the link points at the requested target.")
    ctx.rule("fs-touch", "With touch requested, the node's timestamps are updated.")
    for name, (kind, pname, attrs) in fs_ops(i).items():
        qual = M.OPERATIONS[name]
        for p in run_op(i, ctx, name, qual):
            if not _success_real(p):
                continue
            f = p.facts
            path = target_path(p, pname)
            n = simulate(p, path)
            has_present = name in ("files.directory", "files.file", "files.link")
            present = f.known(truthy_atom(M.sym("present", T_BOOL))) if has_present else True
            if present is None:
                ctx.viol("fs-exists", f"{name}|present ignored", f"{name}: succeeds without consulting whether the node should be present", p)
                continue
            if not present:
                if isinstance(n.exists, S):
                    ctx.viol("fs-exists", f"{name}|content", f"{name}: only an empty directory can be removed", p)
                    continue
                ctx.check(n.exists is False, "fs-exists", f"{name}|absent", f"{name}: succeeds with the node still present although its removal was requested", p)
                continue
            if not ctx.check(n.exists is True and (same(f, n.type, K(kind))), "fs-exists", f"{name}|present",
                             f"{name}: succeeds without a {kind} existing at the requested path", p):
                continue
            for a, field in attrs.items():
                want = M.resolved(field, M.sym(PARAM_OF[field], Ty("str", True)))
                got = n.attr.get(a)
                ok = same(f, got, want)
                if not ok and got is not None and isinstance(got, S) and got.op == "chowned":
                    ctx.check(False, "fs-attr", f"{name}|{a} reset by chown",
                              f"{name}: ownership is changed after the mode was set, which clears set-user-ID/set-group-ID bits of the requested mode", p)
                    continue
                ctx.check(ok, "fs-attr", f"{name}|{a}", f"{name}: succeeds but {a} is not established "
                          f"(value: {show(got) if got is not None else 'unknown'}, requested: {show(want)})", p)
            if name == "files.link":
                tgt = n.attr.get("target")
                if tgt is None:
                    r = _readlink_value(p, path)
                    want = M.sym("target", T_STR)
                    ok = any(k.op == "eq" and v is True and want in k.a and r is not None and any(r in subterms(x) for x in k.a)
                             for k, v in f.d.items())
                    ctx.check(ok, "fs-target", f"{name}|unchanged", "files.link: succeeds without the current target having been compared equal to the requested one", p)
                else:
                    ctx.check(tgt is M.sym("target", T_STR), "fs-target", f"{name}|{tgt.op if isinstance(tgt, S) else 'const'}",
                              f"files.link: link target is not established (value: {show(tgt)}; replacing an existing link to a directory without "
                              "--no-dereference creates the new link inside that directory)", p)
            if name in ("files.upload_content", "files.upload", "files.template", "files.template_content"):
                up = n.attr.get("content")
                if up is not None:
                    ctx.check(_content_ok(name, p, up), "fs-content", f"{name}|uploaded", f"{name}: uploads something else than the requested content: {show(up)[:200]}", p)
                else:
                    sha = n.attr.get("sha512sum")
                    ok = sha is not None and any(k.op == "eq" and v is True and sha in k.a and any(_is_digest(name, p, x) for x in k.a) for k, v in f.d.items())
                    ctx.check(ok, "fs-content", f"{name}|unchanged", f"{name}: succeeds without upload although the digest was not compared equal to that of the requested content", p)
            if has_present:
                t = f.known(truthy_atom(M.sym("touch", T_BOOL)))
                if t is True:
                    ctx.check(n.touched, "fs-touch", name, f"{name}: succeeds without updating timestamps although touch was requested", p)


def _content_source(name, t):
    """Does term t carry the requested content unmodified?"""
    if name == "files.upload_content":
        c = mk("param", "content")
        return t is c or (isinstance(t, S) and t.op == "meth" and t.a[0] == "encode" and t.a[1] is c and len(t.a) <= 3 and
                          (len(t.a) == 2 or (isinstance(t.a[2], K) and str(t.a[2].v).lower() in ("utf-8", "utf8")) or
                           (isinstance(t.a[2], S) and t.a[2].op == "kw" and t.a[2].a[0] == "encoding")))
    return None


def _content_ok(name, p, t):
    r = _content_source(name, t)
    if r is not None:
        return r
    if isinstance(t, S) and t.op == "meth" and t.a[0] == "encode":
        t = t.a[1]
    if name == "files.upload":
        for e in p.events:
            if e.kind == "meth" and e.name == "read" and e.res is t:
                return len([k for k in e.args if k != "$self"]) == 0
        return t.op == "res" and str(t.a[0]).endswith("read")
    for e in p.events:
        if e.kind in ("meth", "callsym") and e.name == "render" and e.res is t:
            return True
    return isinstance(t, S) and t.op in ("res", "meth", "call") and "render" in str(t.a[0])


def _is_digest(name, p, t):
    """digest() of the sha512 of the requested content."""
    if not (isinstance(t, S) and t.op in ("meth", "res") and "digest" in str(t.a[0])):
        return False
    h = t.a[1] if t.op == "meth" else t.a[2]
    if not (isinstance(h, S) and h.op in ("call", "res") and h.a[0] == "hashlib.sha512"):
        return False
    c = h.a[1] if h.op == "call" else h.a[2]
    return _content_ok(name, p, c)


# --------------------------------------------------------------------------
# accounts, packages, services, repositories


USER_FIELDS = {"uid": ("uid", "uid", "int"), "group": ("gid", "group", "str"), "comment": ("comment", "gecos", "str"), "home": ("home", "home", "str"),
               "shell": ("shell", "shell", "str"), "password_hash": ("password", "password_hash", "str")}


def _last_query(p, name, key, val):
    for e in p.events:
        if e.kind == "remote" and e.name == name and e.arg(key) is val:
            return e
    return None


def _cases(f, t):
    """The feasible cases of an optional scalar parameter: none, given, given but falsy."""
    out = []
    for lab, atoms in (("none", [(none_atom(t), True)]), ("given", [(none_atom(t), False), (truthy_atom(t), True)]),
                       ("falsy", [(none_atom(t), False), (truthy_atom(t), False)])):
        g = f.copy()
        try:
            for a, v in atoms:
                g.assume(a, v)
        except M.Infeasible:
            continue
        if not g.consistent():
            continue
        out.append((lab, g))
    return out


def _unstr(t):
    return t.a[0] if isinstance(t, S) and t.op == "str" else t


def _val_eq(g, got, want):
    if got is None:
        return False
    got = _unstr(g.deep(got))
    want = _unstr(g.deep(want))
    return got is want or g.iseq(got, want) is True


def accounts(i, ctx):
    ctx.rule("acct-exists", "After success the account exists iff present was requested.")
    ctx.rule("acct-field", "After success every explicitly given account attribute (also uid/gid 0, an empty comment or an empty group list) has the requested value.")
    ctx.rule("acct-home", "The home directory itself is never created, moved or removed.")
    ctx.rule("acct-untouched", "Attributes that were not given are left as they are on an existing account.")
    for name, subj, fields, q, add, mod, rem in (
            ("system.user", "user", USER_FIELDS, "query_user", "useradd", "usermod", "userdel"),
            ("system.group", "group", {"gid": ("gid", "gid", "int")}, "query_group", "groupadd", "groupmod", "groupdel")):
        who = M.sym(subj, T_STR)
        for p in run_op(i, ctx, name, M.OPERATIONS[name]):
            if not _success_real(p):
                continue
            f = p.facts
            qe = _last_query(p, q, subj, who)
            if qe is None:
                ctx.viol("acct-exists", f"{name}|not queried", f"{name}: succeeds without looking at the current account", p)
                continue
            isn = f.isnone(qe.res)
            if isn is None:
                ctx.viol("acct-exists", f"{name}|existence ignored", f"{name}: succeeds without deciding whether the account exists", p)
                continue
            exists = not isn
            created = False
            vals = {}
            if exists:
                for par, (opt, attr, _) in fields.items():
                    vals[opt] = mk("attr", qe.res, attr)
                vals["groups"] = mk("attr", qe.res, "groups")
            unknown = False
            for e in p.events:
                if e.kind != "remote" or e.name != "run":
                    continue
                c = cmd_of(e)
                if read_only(c):
                    continue
                if c.prog not in (add, mod, rem) or who not in c.operands:
                    unknown = True
                    continue
                if name == "system.user":
                    ctx.check(not (c.flag("--create-home", "--remove", "--move-home") or (c.flag("-m") or (c.prog == rem and c.flag("-r")))), "acct-home", f"{name}|{c.prog}",
                              f"{name}: the home directory is touched by {c.prog}", p, e.loc)
                if c.prog == rem:
                    exists = False
                    continue
                if c.prog == add:
                    exists, created = True, True
                    vals = {}
                    _flag_iff(ctx, p, "acct-field", f"{name}|system", [(truthy_atom(M.sym("system", T_BOOL)), True)], c.flag("--system", "-r"), f"{name}: system")
                    if name == "system.user":
                        ctx.check(c.flag("--no-create-home", "-M"), "acct-home", f"{name}|create", f"{name}: the home directory may be created", p, e.loc)
                        ctx.check(not (c.flag("--user-group", "-U") and "gid" in c.opts), "acct-field", f"{name}|user-group", f"{name}: useradd is given a primary group and told to create one, which it refuses", p, e.loc)
                if not exists:
                    unknown = True
                for o, v in c.opts.items():
                    if o == "groups" and c.prog == mod and c.flag("--append", "-a"):
                        v = mk("appended", v)
                    vals[o] = v
            if unknown:
                ctx.undec(f"{name}: unrecognised account command")
                continue
            present = f.known(truthy_atom(M.sym("present", T_BOOL)))
            if not ctx.check(present is not None and exists == present, "acct-exists", f"{name}|present={present}",
                             f"{name}: succeeds with the account {'present' if exists else 'absent'} although present={present} was requested", p):
                continue
            if not present:
                continue
            for par, (opt, attr, ty) in fields.items():
                t = M.sym(par, Ty(ty, True))
                for lab, g in _cases(f, t):
                    got = vals.get(opt)
                    if lab == "none":
                        if not created:
                            ctx.check(_val_eq(g, got, mk("attr", qe.res, attr)), "acct-untouched", f"{name}|{par}",
                                      f"{name}: modifies {par} of an existing account although it was not requested", p)
                    elif lab == "falsy" and par not in ("uid", "gid", "comment"):
                        continue  # an empty name, path or hash is not a meaningful request
                    else:
                        ctx.check(_val_eq(g, got, t), "acct-field", f"{name}|{par}|{lab}",
                                  f"{name}: succeeds but {par} does not have the requested value when {par} is {'an explicit falsy value' if lab == 'falsy' else 'given'}"
                                  f" (value: {show(g.deep(got)) if got is not None else 'not set'})", p)
            if name == "system.user":
                _groups(i, ctx, p, qe, vals, created)


def _members(t):
    """(set of element terms, set of splatted list terms, appended) of a groups option value; None when not understood."""
    app = False
    if isinstance(t, S) and t.op == "appended":
        t = t.a[0]
        app = True
    if isinstance(t, K) and not isinstance(t.v, str):
        return set(), {t}, app
    if isinstance(t, K):
        return {K(x) for x in t.v.split(",") if x}, set(), app
    if isinstance(t, S) and t.op == "cat":
        return {x for x in t.a if not (isinstance(x, K) and x.v == ",")}, set(), app
    if isinstance(t, S) and t.op == "join":
        t = t.a[1]
    el, sp = set(), set()

    def walk(x):
        if isinstance(x, S) and x.op in ("sorted", "setof", "listof"):
            walk(x.a[0])
        elif isinstance(x, S) and x.op in ("list", "set", "tuple"):
            for y in x.a:
                if isinstance(y, S) and y.op == "splat":
                    walk(y.a[0])
                else:
                    el.add(y)
        else:
            sp.add(x)
    if isinstance(t, S) and t.op == "param":
        return {t}, set(), app
    walk(t)
    return el, sp, app


def _groups(i, ctx, p, qe, vals, created):
    f = p.facts
    cur = mk("attr", qe.res, "groups")
    kw = p.notes.get("groups", "?")
    shape = kw
    app = f.known(truthy_atom(M.sym("append_groups", T_BOOL)))
    got = vals.get("groups")
    name = "system.user"
    want = {M.sym("groups0", T_STR), M.sym("groups1", T_STR)} if shape == "two" else set()
    # membership as a set, or known equality of the current groups to it
    if shape == "none":
        if not created:
            el, sp, ap = _members(f.deep(got))
            ctx.check(not el and sp <= {cur} and (cur in sp or ap or f.istrue(cur) is False), "acct-untouched", f"{name}|groups",
                      f"{name}: modifies supplementary groups although none were requested", p)
        return
    if created:
        el, sp, ap = _members(f.deep(got)) if got is not None else (set(), set(), False)
        ctx.check(el == want and not sp, "acct-field", f"{name}|groups|create", f"{name}: creates the account with other supplementary groups than requested", p)
        return
    el, sp, ap = _members(f.deep(got))
    if got is cur:
        # nothing issued: the current groups must be known to equal the requested ones
        if app and not want:
            ctx.ok("acct-field")
            return
        ok = False
        for k, v in f.d.items():
            if v and k.op == "eq":
                ms = [_members(f.deep(x)) for x in k.a]
                has_cur = [m for m in ms if m[1] == {cur} and not m[0]]
                other = [m for m in ms if m[0] == want and (m[1] <= ({cur} if app else set()))]
                if has_cur and other:
                    ok = True
        if f.istrue(cur) is False and not want:
            ok = True
        ctx.check(ok, "acct-field", f"{name}|groups|{shape}|append={app}|unchanged",
                  f"{name}: succeeds without changing the supplementary groups although they were not found equal to the requested {'empty list' if shape == 'empty' else 'groups'}", p)
        return
    if app:
        ok = want <= el and (cur in sp or ap)
    else:
        ok = el == want and not sp and not ap
    ctx.check(ok, "acct-field", f"{name}|groups|{shape}|append={app}|modified", f"{name}: sets other supplementary groups than requested: {show(f.deep(got))}", p)


PKG = {"apt.package": (("apt-get", "apt"), ("install",), ("remove", "purge", "autoremove")),
       "pacman.package": (("pacman",), ("-S", "--sync"), ("-R", "--remove")),
       "portage.package": (("emerge",), (), ("--depclean", "-c", "--unmerge", "-C", "-cv"))}


def _pkg_effect(name, c):
    progs, ins, rem = PKG[name]
    if c.prog not in progs:
        return None
    words = [t.v for t in c.operands if isinstance(t, K)] + c.flags
    if any(w == r or (len(r) == 2 and r[0] == "-" and w.startswith(r)) for r in rem for w in words):
        return "remove"
    if not ins or any(w == r or (len(r) == 2 and r[0] == "-" and w.startswith(r)) for r in ins for w in words):
        return "install"
    return None


def _installed(p, name, pkg):
    """What the probe of pkg said on this path: True / False / None."""
    f = p.facts
    for e in p.events:
        if e.kind == "remote" and e.name == "run":
            c = cmd_of(e)
            if read_only(c) and pkg in c.operands:
                out = mk("attr", e.res, "stdout")
                rc = mk("attr", e.res, "returncode")
                if name == "pacman.package":
                    r = f.known(eq_atom(rc, K(0)))
                    if r is not None:
                        return r
                    continue
                if f.isnone(out) is True:
                    return False
                for k, v in f.d.items():
                    if k.op == "in" and isinstance(k.a[0], K) and any(x is out for x in subterms(k.a[1])):
                        s = k.a[0].v
                        s = s.decode() if isinstance(s, bytes) else s
                        if "installed" in s or "was built with" in s:
                            return v
                if e.arg("check") is FALSE and f.known(eq_atom(rc, K(0))) is False:
                    return False
    return None


def packages(i, ctx):
    ctx.rule("pkg-exact", "On every successful real path each listed package that the probe reported missing (installed) is installed (removed) exactly "
             "when present (absent) was requested, no other package is acted upon, and nothing is done for packages already in the requested state.")
    ctx.rule("pkg-opts", "Options given by the user are passed to the commands that install or remove.")
    ctx.rule("pkg-probed", "Every listed package is probed before it is acted upon.")
    for name in PKG:
        for p in run_op(i, ctx, name, M.OPERATIONS[name]):
            if not _success_real(p):
                continue
            f = p.facts
            present = f.known(truthy_atom(M.sym("present", T_BOOL)))
            acts = {"install": [], "remove": []}
            odd = False
            for e in p.events:
                if e.kind == "remote" and e.name == "run":
                    c = cmd_of(e)
                    if read_only(c):
                        continue
                    k = _pkg_effect(name, c)
                    if k is None:
                        odd = True
                        continue
                    acts[k].extend(c.after_ddash or c.operands)
                    os_ = p.notes.get("opts")
                    if os_ == "two":
                        ctx.check(all(M.sym(x, T_STR) in c.argv for x in ("opts0", "opts1")), "pkg-opts", f"{name}|{k}", f"{name}: the given options are not passed to the command that {k}s a package", p, e.loc)
                    if name == "portage.package" and k == "install":
                        _flag_iff(ctx, p, "pkg-opts", f"{name}|oneshot", [(truthy_atom(M.sym("oneshot", T_BOOL)), True)], c.flag("--oneshot", "-1"), f"{name}: oneshot")
            if odd:
                ctx.undec(f"{name}: unrecognised package command")
                continue
            want = [M.sym("packages0", T_STR), M.sym("packages1", T_STR)] if p.notes.get("packages") == "two" else [M.sym("packages0", T_STR)]
            if present is None:
                ctx.viol("pkg-exact", f"{name}|present ignored", f"{name}: succeeds without consulting 'present'", p)
                continue
            for w in want:
                inst = _installed(p, name, w)
                if inst is None:
                    acted = w in acts["install"] or w in acts["remove"]
                    if acted:
                        ctx.viol("pkg-probed", f"{name}|unprobed", f"{name}: acts on a package without having probed whether it is installed", p)
                    else:
                        ctx.undec(f"{name}: probe outcome not understood")
                    continue
                ctx.ok("pkg-probed")
                exp_i = present and not inst
                exp_r = not present and inst
                ctx.check((w in acts["install"]) == exp_i and (w in acts["remove"]) == exp_r, "pkg-exact",
                          f"{name}|present={present}|installed={inst}",
                          f"{name}: with present={present} and the package {'installed' if inst else 'missing'} the package is "
                          f"{'installed' if w in acts['install'] else 'removed' if w in acts['remove'] else 'left alone'}", p)
            extra = [x for x in acts["install"] + acts["remove"] if x not in want and not (isinstance(x, S) and str(x.a[0]).startswith("opts"))]
            ctx.check(not extra, "pkg-exact", f"{name}|extra", f"{name}: acts on packages that were not requested: {[show(x) for x in extra]}", p)


def services(i, ctx):
    ctx.rule("svc-state", "A requested unit state that differs from the observed one (or a restart/reload) is established by exactly the corresponding systemctl verb on that unit.")
    ctx.rule("svc-enabled", "A requested enablement that differs from the observed one is established with enable/disable; equal or unrequested enablement is left alone.")
    ctx.rule("svc-scope", "Every systemctl call (probes included) addresses the user manager iff user mode was requested.")
    name = "systemd.service"
    svc = M.sym("service", T_STR)
    verbs = {"started": "start", "restarted": "restart", "reloaded": "reload", "stopped": "stop"}
    for p in run_op(i, ctx, name, M.OPERATIONS[name]):
        if not _success_real(p):
            continue
        f = p.facts
        um = f.known(truthy_atom(M.sym("user_mode", T_BOOL)))
        acts = []
        probes = {}
        for e in p.events:
            if e.kind != "remote" or e.name != "run":
                continue
            c = cmd_of(e)
            if c.prog != "systemctl":
                continue
            has = c.flag("--user")
            if um is not None or has:
                ctx.check(bool(has) == bool(um), "svc-scope", f"{name}|{'probe' if read_only(c) else 'action'}",
                          f"{name}: {'probes' if read_only(c) else 'acts on'} the {'user' if has else 'system'} manager with user_mode={um}", p, e.loc)
            if read_only(c):
                probes[c.opts.get("property", c.operands[0] if c.operands else None)] = e.res
                continue
            ctx.check(c.operands[-1:] == [svc], "svc-state", f"{name}|other unit", f"{name}: acts on something else than the requested unit", p, e.loc)
            acts.append(e.arg("command"))

        def issued_under(g):
            out = []
            for t in acts:
                c = Cmd(g.deep(t))
                out.append(c.operands[0].v if c.operands and isinstance(c.operands[0], K) else "?")
            return out
        st = M.sym("state", Ty("str", True))
        en = M.sym("enabled", Ty("bool", True))
        # observed state
        act = probes.get(K("ActiveState"))
        active = _string_probe(f, act, ("active", "activating"))
        for lab in (None,) + tuple(verbs):
            g = f.copy()
            try:
                if lab is None:
                    g.assume(none_atom(st), True)
                else:
                    g.assume(none_atom(st), False)
                    g.assume(eq_atom(st, K(lab)), True)
            except M.Infeasible:
                continue
            if not g.consistent():
                continue
            issued = issued_under(g)
            if "?" in issued:
                issued = [v for v in issued if v != "?"]
            mine = [v for v in issued if v in verbs.values()]
            if lab is None:
                ctx.check(not mine, "svc-state", f"{name}|None", f"{name}: issues '{mine}' although no state was requested", p)
            elif lab in ("restarted", "reloaded"):
                ctx.check(mine == [verbs[lab]], "svc-state", f"{name}|{lab}", f"{name}: state={lab} issues {mine}", p)
            elif active is None:
                if not mine:
                    ctx.undec(f"{name}: observed state not understood")
            else:
                need = active != (lab == "started")
                ctx.check(mine == ([verbs[lab]] if need else []), "svc-state", f"{name}|{lab}|active={active}",
                          f"{name}: state={lab} on a unit that is {'active' if active else 'inactive'} issues {mine}", p)
        probe = _probe_atom(f, probes.get(K("UnitFileState")), "enabled")
        for lab, g in (("none", None), ("true", True), ("false", False)):
            for cur in (True, False):
                gg = f.copy()
                try:
                    gg.assume(none_atom(en), g is None)
                    if g is not None:
                        gg.assume(truthy_atom(en), g)
                    if probe is not None:
                        gg.assume(probe, cur)
                except M.Infeasible:
                    continue
                if not gg.consistent():
                    continue
                mine = [v for v in issued_under(gg) if v not in verbs.values()]
                if g is None:
                    ctx.check(not mine, "svc-enabled", f"{name}|none", f"{name}: issues {mine} although enablement was not requested", p)
                elif probe is None:
                    ctx.undec(f"{name}: observed enablement not understood")
                else:
                    ctx.check(mine == ([("enable" if g else "disable")] if cur != g else []), "svc-enabled", f"{name}|{lab}|enabled={cur}",
                              f"{name}: enabled={g} on a unit that is {'enabled' if cur else 'disabled'} issues {mine}", p)


def _probe_atom(f, res, word):
    if res is None:
        return None
    out = mk("attr", res, "stdout")
    for k in f.d:
        for t in subterms(k):
            if isinstance(t, S) and t.op == "eq" and any(isinstance(x, K) and x.v == word for x in t.a) and any(out in subterms(x) for x in t.a):
                return t
    return None


def _string_probe(f, res, words):
    """Was the trimmed output of the probe compared to one of the words?"""
    if res is None:
        return None
    out = mk("attr", res, "stdout")
    seen = None
    for k, v in f.d.items():
        if k.op == "eq" and any(isinstance(x, K) and x.v in words for x in k.a) and any(out in subterms(x) for x in k.a):
            if v:
                return True
            seen = False
        if k.op == "eq" and v and any(isinstance(x, K) and isinstance(x.v, str) and x.v not in words for x in k.a) and any(out in subterms(x) for x in k.a):
            return False
    if seen is None and f.isnone(out) is True:
        return False
    return seen


def _flag_iff(ctx, p, rid, key, conds, has, what):
    """The command has the option iff all conditions (atoms with the wanted truth) hold; every feasible case of them is considered."""
    def feasible(asg):
        g = p.facts.copy()
        try:
            for a, v in asg:
                g.assume(a, v)
        except M.Infeasible:
            return False
        return g.consistent()
    if feasible(conds):
        ctx.check(has, rid, key + "|missing", f"{what} is not passed on although it was requested", p)
    for j, (a, v) in enumerate(conds):
        if feasible(conds[:j] + [(a, not v)]):
            ctx.check(not has, rid, key + "|unrequested", f"{what} is passed although it was not requested", p)


def repos(i, ctx):
    ctx.rule("git-clone", "A missing repository is cloned from the requested url to the requested path (with the requested branch and depth).")
    ctx.rule("git-update", "An existing repository is only pulled when updating was requested, its commit differs from the newest remote commit and its remote url equals the requested one.")
    ctx.rule("git-fresh", "Success without action is only reported when updating is off or the current commit equals the newest remote commit.")
    ctx.rule("git-options", "Depth, rebase, fast-forward and submodule options are passed on exactly if they were requested, and submodules are updated exactly if that was requested.")
    name = "git.repo"
    url, path = M.sym("url", T_STR), M.sym("path", T_STR)
    asked = lambda n: (truthy_atom(M.sym(n, T_BOOL)), True)
    for p in run_op(i, ctx, name, M.OPERATIONS[name]):
        if not _success_real(p):
            continue
        f = p.facts
        st = _last_query(p, "stat", "path", path)
        if st is None:
            ctx.viol("git-clone", f"{name}|not inspected", f"{name}: does not look at the destination", p)
            continue
        new = f.isnone(st.res)
        br, depth = M.sym("branch_or_tag", Ty("str", True)), M.sym("depth", Ty("int", True))
        acts = []
        for e in p.events:
            if e.kind == "remote" and e.name == "run":
                c = cmd_of(e)
                if c.prog == "git" and not read_only(c):
                    acts.append((e, c))
        verbs = [c.operands[0].v if isinstance(c.operands[0], K) else "?" for _, c in acts]
        deep = (none_atom(depth), False)
        for _, c in acts:
            v = c.operands[0].v if isinstance(c.operands[0], K) else "?"
            if v == "pull":
                _flag_iff(ctx, p, "git-options", f"{name}|pull depth", [deep], c.opts.get("depth") is not None, f"{name}: the depth of an update")
                if c.opts.get("depth") is not None:
                    ctx.check(_unstr(p.facts.deep(c.opts["depth"])) is depth, "git-options", f"{name}|pull depth value", f"{name}: pulls with another depth than requested", p)
                _flag_iff(ctx, p, "git-options", f"{name}|rebase", [asked("rebase")], c.flag("--rebase", "-r"), f"{name}: rebase")
                _flag_iff(ctx, p, "git-options", f"{name}|ff_only", [asked("ff_only")], c.flag("--ff-only"), f"{name}: ff_only")
            elif v == "submodule":
                _flag_iff(ctx, p, "git-options", f"{name}|recursive", [asked("recursive_submodules")], c.flag("--recursive"), f"{name}: recursive_submodules ({verbs[0]})")
                _flag_iff(ctx, p, "git-options", f"{name}|shallow", [asked("shallow_submodules"), deep], c.opts.get("depth") is not None, f"{name}: the depth of submodules ({verbs[0]})")
                ctx.check(c.flag("--init"), "git-options", f"{name}|init", f"{name}: new submodules are not initialised", p)
                ctx.check(c.opts.get("dir") is path, "git-options", f"{name}|submodule dir", f"{name}: submodules of another repository are updated", p)
        if verbs[:1] in (["clone"], ["pull"]):
            _flag_iff(ctx, p, "git-options", f"{name}|submodules after {verbs[0]}", [asked("update_submodules")], "submodule" in verbs or any(x.flag("--recurse-submodules") for _, x in acts), f"{name}: update_submodules ({verbs[0]})")
        if new:
            ok = verbs[:1] == ["clone"]
            if ok:
                c = acts[0][1]
                ok = url in c.operands and path in c.operands and c.operands.index(url) < c.operands.index(path)
            ctx.check(ok, "git-clone", f"{name}|clone", f"{name}: a missing repository is not cloned from url to path (issued: {verbs})", p)
            if verbs[:1] == ["clone"]:
                c = acts[0][1]
                for lab, par, opt in (("branch", br, "branch"), ("depth", depth, "depth")):
                    n = f.isnone(par)
                    got = c.opts.get(opt)
                    if n is True:
                        ctx.check(got is None, "git-clone", f"{name}|{lab} unrequested", f"{name}: clones with a {lab} that was not requested", p)
                    elif n is False:
                        ctx.check(got is not None and _unstr(f.deep(got)) is par, "git-clone", f"{name}|{lab}", f"{name}: clones without the requested {lab}", p)
                    elif n is None and f.istrue(par) is not False:
                        ctx.check(got is not None, "git-clone", f"{name}|{lab} ignored", f"{name}: clones without consulting the requested {lab}", p)
        elif new is False:
            upd = f.known(truthy_atom(M.sym("update", T_BOOL)))
            if acts:
                ctx.check(upd is True, "git-update", f"{name}|update off", f"{name}: modifies an existing repository although updating is off", p)
                rem = [e.res for e in p.events if e.kind == "remote" and e.name == "run" and _reads_remote_url(cmd_of(e))]
                ok = any(k.op == "eq" and v and url in k.a and any(r in subterms(x) for r in rem for x in k.a) for k, v in f.d.items())
                ctx.check(ok, "git-update", f"{name}|remote url", f"{name}: modifies an existing repository without its remote url having been compared equal to the requested url", p)
            else:
                heads = [e.res for e in p.events if e.kind == "remote" and e.name == "run" and cmd_of(e).prog == "git"]
                ok = upd is False or any(k.op == "eq" and v and sum(1 for x in k.a if any(h in subterms(x) for h in heads)) == 2 for k, v in f.d.items())
                ctx.check(ok, "git-fresh", f"{name}|stale", f"{name}: succeeds without action although the current commit was not found equal to the newest remote commit", p)


def _reads_remote_url(c):
    return c.prog == "git" and read_only(c) and any(isinstance(t, K) and ("remote" in str(t.v)) for t in c.argv) and "ls-remote" not in [getattr(t, "v", None) for t in c.argv]


def desired_state(i, ctx):
    convergence(i, ctx)


def desired_state_system(i, ctx):
    accounts(i, ctx)
    packages(i, ctx)
    services(i, ctx)
    repos(i, ctx)


# --------------------------------------------------------------------------
# Type guard


GUARDED = {"files.directory": ("path", "dir"), "files.file": ("path", "file"), "files.link": ("path", "link"), "files.upload_content": ("dest", "file"),
           "files.upload": ("dest", "file"), "files.template_content": ("dest", "file"), "files.template": ("dest", "file"), "files.line": ("path", "file"),
           "git.repo": ("path", "dir")}


def _stats(p, upto):
    for e in p.events:
        if e.i >= upto:
            break
        if e.kind == "remote" and e.name == "stat":
            yield e


def type_guard(i, ctx):
    ctx.rule("guarded-action", "Every modifying action on a path is preceded on the same path by an inspection of that very path that found it "
             "missing or of the kind the operation manages (not following links).")
    ctx.rule("foreign-kind-fails", "When something of another kind exists at the path, the operation never reports success.")
    for name, (pname, kind) in GUARDED.items():
        for p in run_op(i, ctx, name, M.OPERATIONS[name]):
            f = p.facts
            path = target_path(p, pname)
            for e in p.events:
                if not is_mutation(e):
                    continue
                if e.name == "upload":
                    tgts = [e.arg("file")]
                else:
                    c = cmd_of(e)
                    d = c.opts.get("dir") if c.prog == "git" else None
                    ops = c.operands
                    if c.prog in ("cp",):
                        continue
                    if c.prog in ("chmod", "chown", "chgrp", "ln"):
                        ops = ops[1:]
                    if c.prog == "git":
                        ops = [d] if d is not None else ops[-1:]
                    tgts = ops
                for t in tgts:
                    ok = False
                    for s in _stats(p, e.i):
                        if s.arg("path") is not t:
                            continue
                        if s.arg("follow_links") is not FALSE and s.arg("follow_links") is not None:
                            continue
                        if f.isnone(s.res) is True:
                            ok = True
                        elif f.isnone(s.res) is False and f.iseq(mk("attr", s.res, "type"), K(kind)) is True:
                            ok = True
                    ctx.check(ok, "guarded-action", f"{name}|{describe(e)}",
                              f"{name}: '{describe(e)}' acts on {show(t)} without it having been found missing or a {kind}", p, e.loc)
            r = result(p) if p.kind == "return" else None
            if r is not None and r[0] is not False:
                st = _last_query(p, "stat", "path", path)
                if st is not None and f.isnone(st.res) is False:
                    ctx.check(f.iseq(mk("attr", st.res, "type"), K(kind)) is True, "foreign-kind-fails", f"{name}",
                              f"{name}: reports success although the existing node was not found to be a {kind}", p)


# --------------------------------------------------------------------------
# Absolute paths


PREFIXES = ("", "a", ".", "~", " ", "-", "C")


def absolute_paths(i, ctx):
    ctx.rule("reject-relative", "For every operation with a remote path parameter and every path that is empty or starts with anything but '/', the operation "
             "raises before any remote action, settings change or nested operation.")
    ctx.rule("accept-absolute", "Absolute paths are not rejected by the path check.")
    ops = operations(i, ctx)
    todo = []
    for name, qual in sorted(ops.items()):
        base = M.unwrap(M.lookup(i, qual))
        names = [a.arg for a in base.node.args.args + base.node.args.kwonlyargs]
        for pn in ("path", "dest"):
            if pn in names:
                todo.append((name, qual, pn))
    for name, qual, pn in todo:
        for pre in PREFIXES:
            v = K("") if pre == "" else cat(K(pre), M.sym("rest", T_STR))
            for p in run_op(i, ctx, name, qual, fixed={pn: v}, key=("rel", pn, pre)):
                ev = [e for e in p.events if e.kind in ("remote", "defaults", "nestedop")]
                lab = f"{name}|{pn}={'empty' if pre == '' else repr(pre) + '…'}"
                ctx.check(p.kind == "raise" and not ev, "reject-relative", f"{name}|{pn}|{'acts' if ev else p.kind}",
                          f"{lab}: a path that isn't absolute is not rejected before {ev[0].name if ev else 'success'}", p, ev[0].loc if ev else None)
        v = cat(K("/x"), M.sym("rest", T_STR), K("x"))
        und = len(ctx.undecided)
        got = [p for p in run_op(i, ctx, name, qual, fixed={pn: v}, key=("abs", pn)) if p.kind == "return"]
        if not got and len(ctx.undecided) > und:
            continue
        ctx.check(bool(got), "accept-absolute", f"{name}|{pn}", f"{name}: no path with an absolute {pn} succeeds")


# --------------------------------------------------------------------------
# argv hygiene


def _absolute_known(p, t):
    if isinstance(t, K):
        return str(t.v).startswith("/")
    if isinstance(t, S) and t.op == "cat" and isinstance(t.a[0], K):
        return t.a[0].v.startswith("/")
    for k in (eq_atom(mk("item", t, K(0)), K("/")), mk("meth", "startswith", t, K("/")), truthy_atom(mk("meth", "startswith", t, K("/"))),
              eq_atom(mk("slice", t, NONE, K(1), NONE), K("/"))):
        if p.facts.known(k) is True:
            return True
    if isinstance(t, S) and t.op == "call" and t.a[0] in ("os.path.join", "os.path.normpath"):
        return _absolute_known(p, t.a[1])
    return False


def _user_controlled(t):
    """Parameters (other than option lists) that occur in t."""
    out = []
    for s in subterms(t):
        if isinstance(s, S) and s.op == "param" and not str(s.a[0]).startswith(("args.", "opts")) and s.a[0] not in ("host", "script", "inventory"):
            out.append(s)
    return out


def _inside(t, op):
    return any(isinstance(s, S) and s.op == op for s in subterms(t))


def _free_text(t):
    """Does a parameter string reach t other than through a resolution, an integer rendering or a validated lookup?"""
    if isinstance(t, K):
        return False
    if not isinstance(t, S):
        return False
    if t.op in ("resolved", "res"):
        return False
    if t.op == "param":
        return not str(t.a[0]).startswith(("args.", "opts")) and typeof(t).kind in ("str", "any") and t.a[0] not in ("host", "script", "inventory")
    if t.op == "ite":
        return _free_text(t.a[1]) or _free_text(t.a[2])
    if t.op in ("eq", "in", "none", "truthy", "not", "len"):
        return False
    if t.op == "str" and typeof(t.a[0]).kind in ("int", "bool"):
        return False
    return any(_free_text(x) for x in t.a if isinstance(x, (K, S)))


def argv_hygiene(i, ctx):
    ctx.rule("argv-list", "Every remote command is an argument vector whose program is a constant.")
    ctx.rule("no-shell-text", "A script handed to a shell (sh -c and the like) is a constant that contains no parameter.")
    ctx.rule("no-option-injection", "A parameter string is only passed after '--', as the value of a preceding option, glued behind a constant, or when it is known to be an absolute path.")
    for name, qual, paths in all_ops(i, ctx):
        for p in paths:
            for e in p.events:
                if e.kind != "remote" or e.name != "run":
                    continue
                t = e.arg("command")
                c = Cmd(t)
                if not ctx.check(c.argv is not None and c.prog is not None, "argv-list", f"{name}|{show(t)[:60]}",
                                 f"{name}: remote command is not an argument vector with a constant program: {show(t)[:200]}", p, e.loc):
                    continue
                if c.prog in SHELLS or c.prog in ("eval", "xargs", "su", "sudo", "env"):
                    bad = [a for a in c.argv if _free_text(a)]
                    if c.prog in SHELLS and c.flag("-c"):
                        script = [a for a in c.argv if not isinstance(a, K)]
                        ctx.check(not any(_free_text(a) for a in script[:1]), "no-shell-text", f"{name}|{c.prog}",
                                  f"{name}: parameter text reaches the shell script {show(t)[:200]}", p, e.loc)
                        continue
                dd = False
                prev = None
                for a in c.argv[1:]:
                    if isinstance(a, K):
                        if a.v == "--":
                            dd = True
                        prev = a
                        continue
                    if not dd and _free_text(a):
                        from ..effects import VALUE_OPTS
                        ok = (isinstance(prev, K) and prev.v in VALUE_OPTS.get(c.prog, {})) or _absolute_known(p, a) or \
                            (isinstance(a, S) and a.op == "cat" and isinstance(a.a[0], K) and len(a.a[0].v) > 0)
                        if not ok and isinstance(a, S) and a.op in ("or", "ite"):
                            ok = False
                        ctx.check(ok, "no-option-injection", f"{name}|{c.prog}|{show(a)[:40]}",
                                  f"{name}: {show(a)[:80]} is passed to {c.prog} where it may be taken for an option (no preceding '--')", p, e.loc)
                    else:
                        ctx.ok("no-option-injection")
                    prev = a


# --------------------------------------------------------------------------
# Failing commands


def _must_answer(c):
    """A probe that fails only if it couldn't be answered."""
    first = c.operands[0].v if c.operands and isinstance(c.operands[0], K) else None
    return c.prog in ("readlink", "stat", "cat") or (c.prog == "systemctl" and first == "show") or (c.prog == "git" and first in ("ls-remote", "rev-parse", "status"))


def failing_commands(i, ctx):
    ctx.rule("failure-surfaces", "On every path on which a checked remote command fails, the operation does not return success: the error is raised to the caller.")
    ctx.rule("actions-checked", "Every modifying remote command is run with failure checking, or its return code is consulted on the path.")
    ctx.rule("nothing-after-failure", "No further modifying action is issued after a remote command failed.")
    ctx.rule("probes-checked", "A probe whose failure is not an answer is run with failure checking, or its return code or output is consulted, on every path to success.")
    for name, qual, paths in all_ops(i, ctx, fail=("run",)):
        for p in paths:
            if p.kind == "return" and (result(p) or (None,))[0] is True:
                for e in p.events:
                    if e.kind == "remote" and e.name == "run" and not is_mutation(e) and _must_answer(cmd_of(e)):
                        chk = e.arg("check")
                        ok = chk is None or chk is TRUE or p.facts.known(chk) is True
                        if not ok:
                            rc, so = mk("attr", e.res, "returncode"), mk("attr", e.res, "stdout")
                            ok = any(rc in subterms(k) for k in p.facts.d) or p.facts.known(so) is True
                            if not ok and p.facts.known(chk) is None and chk is not FALSE:
                                ctx.undec(f"{name}: is '{describe(e)}' checked?")
                                continue
                        ctx.check(ok, "probes-checked", f"{name}|{describe(e)}", f"{name}: succeeds also if '{describe(e)}' failed", p, e.loc)
            failed = [e for e in p.events if e.kind == "raised" and e.name == "remote:run"]
            if failed:
                r = result(p) if p.kind == "return" else None
                src = [e for e in p.events if e.kind == "remote" and e.res is failed[0].arg("of")]
                lab = describe(src[0]) if src else "run"
                ctx.check(not (r is not None and r[0] is not False), "failure-surfaces", f"{name}|{lab}",
                          f"{name}: returns success although '{lab}' failed", p, failed[0].loc)
                if r is None or r[0] is not False:
                    ctx.check(p.kind == "raise", "failure-surfaces", f"{name}|{lab}|kind", f"{name}: the failure of '{lab}' is swallowed", p, failed[0].loc)
                later = [e for e in p.events if e.i > failed[0].i and is_mutation(e)]
                ctx.check(not later, "nothing-after-failure", f"{name}|{describe(later[0]) if later else ''}",
                          f"{name}: '{describe(later[0]) if later else ''}' is issued after '{lab}' failed", p, later[0].loc if later else None)
            for e in p.events:
                if e.kind == "remote" and e.name == "run" and is_mutation(e):
                    chk = e.arg("check")
                    ok = chk is None or chk is TRUE
                    if not ok:
                        rc = mk("attr", e.res, "returncode")
                        ok = any(rc in subterms(k) for k in p.facts.d)
                    ctx.check(ok, "actions-checked", f"{name}|{describe(e)}", f"{name}: '{describe(e)}' is run without failure checking", p, e.loc)


# --------------------------------------------------------------------------
# line


L0, L1 = M.sym("l0", T_STR), M.sym("l1", T_STR)
NL = K("\n")
LINE_SHAPES = {"empty": (K(""), []), "one, no newline": (cat(K("k"), L0), [cat(K("k"), L0)]), "two": (cat(L0, NL, L1, NL), [L0, L1])}


def _line_config(i, shape, cfg):
    text, lines = LINE_SHAPES[shape]

    def hook(ii, s, name, args, kwargs, n):
        if name == "decode" and s.op == "res" and s.a[0] in ("download", "download_or"):
            ii.emit("codec", "decode", {"args": TupleV(list(args)), "kw": DictObj([(K(k), v) for k, v in kwargs.items()], ii.epoch)}, n)
            return text
        if s is text and name in ("splitlines", "split", "rsplit"):
            keep = name == "splitlines" and (kwargs.get("keepends") is TRUE or (args and args[0] is TRUE))
            if name != "splitlines" and not (args and args[0] is NL):
                return None
            if keep:
                return ListObj([cat(x, NL) for x in lines] if shape == "two" else list(lines), ii.epoch)
            out = list(lines)
            if name != "splitlines" and shape == "two":
                out.append(K(""))
            return ListObj(out, ii.epoch)
        if s is text and name == "endswith" and args and args[0] is NL:
            return FALSE
        return None
    cfg.meth_hook = hook


def line_edit(i, ctx):
    ctx.rule("line-result", "The uploaded content consists of exactly the original lines that are to be kept, in their order, followed by the new line when adding; "
             "a line is dropped iff it matches the same criterion that was used for detection.")
    ctx.rule("line-noop", "Success without upload requires the line to be found (not found) already when it should be present (absent).")
    ctx.rule("line-meta", "An existing file keeps its mode, owner and group; a new file gets the resolved defaults.")
    ctx.rule("line-codec", "The file content is decoded and re-encoded with the same lossless codec, so other bytes survive.")
    ctx.rule("line-backup", "With a backup requested, an existing file is copied next to itself, under a name that extends its own, before it is overwritten.")
    name, qual = "files.line", M.OPERATIONS["files.line"]
    line = M.sym("line", T_STR)
    path = M.sym("path", T_STR)
    for shape, (text, lines) in LINE_SHAPES.items():
        cfg = M.ops_config(i)
        _line_config(i, shape, cfg)
        ex = explore(i, cfg, M.op_entry(qual, fixed={"name": NONE, "check": TRUE}), max_paths=60000)
        for p in ctx.take(ex, f"{name} ({shape})"):
            if not _success_real(p):
                continue
            f = p.facts
            st = _last_query(p, "stat", "path", path)
            if st is None:
                continue
            new = f.isnone(st.res)
            orig = [] if new else lines
            present = f.known(truthy_atom(M.sym("present", T_BOOL)))
            regex = M.sym("regex", Ty("str", True))
            rx = f.isnone(regex)
            ws = f.known(truthy_atom(M.sym("ignore_whitespace", T_BOOL)))
            ups = [e for e in p.events if e.kind == "remote" and e.name == "upload"]

            def matches(l):
                if rx is False:
                    for k, v in reversed(list(f.d.items())):
                        if v is not None and any(isinstance(t, S) and t.op in ("call", "res") and str(t.a[0]) == "re.search" and l in t.a and regex in t.a for t in subterms(k)):
                            return (v if k.op in ("truthy",) else not v)
                    return None
                if ws is None:
                    return None
                a, b = (mk("meth", "strip", line), mk("meth", "strip", l)) if ws else (line, l)
                return f.known(eq_atom(a, b))
            if not ups:
                for pv in (True, False):
                    g = f.copy()
                    try:
                        g.assume(truthy_atom(M.sym("present", T_BOOL)), pv)
                    except M.Infeasible:
                        continue
                    if not g.consistent():
                        continue
                    if rx is not True or ws is None:
                        if new:
                            ctx.check(not pv, "line-noop", "present|new", "files.line: succeeds without adding the line to a missing file", p)
                        elif rx is None or (ws is None and rx is True):
                            ctx.undec("files.line: detection mode not decided")
                        continue
                    ats = [eq_atom(mk("meth", "strip", line), mk("meth", "strip", l)) if ws else eq_atom(line, l) for l in orig]
                    for combo in _assignments(g, ats):
                        if pv:
                            ctx.check(any(combo), "line-noop", "present", "files.line: succeeds without adding the line although it was not found in the file", p)
                        else:
                            ctx.check(not any(combo), "line-noop", "absent", "files.line: succeeds without removing the line although it was not ruled out that the file contains it", p)
                continue
            up = ups[-1]
            content = up.arg("content")
            if not (isinstance(content, S) and content.op == "meth" and content.a[0] == "encode") and not isinstance(content, K):
                ctx.undec(f"files.line: uploaded content not understood: {show(content)[:100]}")
                continue
            if isinstance(content, K):
                got = K(content.v.decode("utf-8", "surrogateescape") if isinstance(content.v, bytes) else content.v)
                enc = None
            else:
                got = content.a[1]
                enc = [x for x in content.a[2:]]
            got = f.deep(got)
            if present:
                exp = [_joined(orig + [line])]
            else:
                ms = [matches(l) for l in orig]
                if rx is False and any(m is None for m in ms):
                    # the matcher is an uninterpreted function: keep what the path decided per line
                    ctx.undec("files.line: regex decision per line not recorded")
                    continue
                keep = [l for l, m in zip(orig, ms) if m is not True]
                exp = [_joined(keep)] + ([K("\n")] if not keep else [])
            ctx.check(any(got is x or (isinstance(got, S) and isinstance(x, S) and _flat(got) == _flat(x)) for x in exp), "line-result",
                      f"{'add' if present else 'remove'}|{'regex' if rx is False else 'ws' if ws else 'exact'}",
                      f"files.line: uploads {show(got)[:160]!r} instead of {show(exp[0])[:160]!r} (file shape: {shape})", p, up.loc)
            for a, fld in (("mode", "file_mode"), ("owner", "owner"), ("group", "group")):
                v = up.arg(a, NONE)
                if new:
                    ctx.check(v is M.resolved(fld, NONE), "line-meta", f"new|{a}", f"files.line: a new file is not created with the default {a}", p, up.loc)
                else:
                    ok = f.isnone(v) is True or (isinstance(v, S) and v.op == "attr" and v.a[0] is st.res)
                    ctx.check(ok, "line-meta", f"existing|{a}", f"files.line: changes the {a} of an existing file", p, up.loc)
            if not new:
                decs = [e for e in p.events if e.kind == "codec"]
                if decs and enc is not None:
                    d = _codec_args(list(decs[-1].arg("args").a), {kv.a[0].v: kv.a[1] for kv in decs[-1].arg("kw").a})
                    e2 = _codec_args([x for x in enc if not (isinstance(x, S) and x.op == "kw")], {x.a[0]: x.a[1] for x in enc if isinstance(x, S) and x.op == "kw"})
                    ok = d == e2 and (d[1] == "surrogateescape" or d[0] in ("latin-1", "iso-8859-1", "latin1"))
                    ctx.check(ok, "line-codec", f"{d}->{e2}", f"files.line: content is decoded with {d} but encoded with {e2}; other bytes of the file are not preserved", p, up.loc)
                bk = M.sym("backup", M.T_ANY)
                b = f.known(truthy_atom(mk("param", "backup")))
                cps = [e for e in p.events if e.kind == "remote" and e.name == "run" and cmd_of(e).prog in ("cp",)]
                if b is True:
                    ok = any(path in cmd_of(e).operands[:1] and e.i < up.i for e in cps)
                    if ok:
                        e = cps[0]
                        dst = cmd_of(e).operands[-1]
                        isb = f.known(mk("isinst", mk("param", "backup"), "bool"))
                        if isb is True:
                            base = mk("call", "os.path.basename", path)
                            subs = list(subterms(dst))
                            starts = (isinstance(dst, S) and dst.op == "cat" and dst.a[0] is path) or any(
                                isinstance(x, S) and x.op == "cat" and x.a[0] is base for x in subs)
                            ok = starts
                    ctx.check(ok, "line-backup", "requested", "files.line: the file is overwritten without the requested backup copy next to it", p, up.loc)
                elif b is False:
                    ctx.check(not cps, "line-backup", "unrequested", "files.line: makes a backup that was not requested", p, up.loc)


def _assignments(f, atoms):
    """All truth assignments of the atoms that are consistent with the facts."""
    if not atoms:
        return [()]
    out = []
    for v in (True, False):
        g = f.copy()
        try:
            g.assume(atoms[0], v)
        except M.Infeasible:
            continue
        if g.consistent():
            out += [(v,) + r for r in _assignments(g, atoms[1:])]
    return out


def _joined(ls):
    out = []
    for l in ls:
        out += [l, NL]
    return cat(*out)


def _flat(t):
    return tuple(t.a) if t.op == "cat" else (t,)


def _codec_args(pos, kw):
    enc = kw.get("encoding") or (pos[0] if pos else K("utf-8"))
    err = kw.get("errors") or (pos[1] if len(pos) > 1 else K("strict"))
    e = str(getattr(enc, "v", enc)).lower().replace("_", "-")
    if e == "utf8":
        e = "utf-8"
    return e, str(getattr(err, "v", err))
