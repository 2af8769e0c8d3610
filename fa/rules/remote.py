"""Rules over requests: the connector's public methods composed with the dispatcher's handlers on a modelled operating system."""
from __future__ import annotations
import ast
import copy
import errno as _errno
import stat as _stat
import sys

from ..terms import (K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT, T_BYTES, T_ANY, Infeasible)
from ..objects import Inst, ListObj, DictObj, TupleV, freeze, cls_name, FnV, PyFn, BoundV, ClassObj, Ext, ModuleObj
from ..interp import explore, Config, AbsRaise
from .. import model as M
from ..model import AnchorMissing
from .wire import error_reply, TD, td_module, packet_classes, is_request, is_opt, field_types, sample, server_main, wire_config

CT = "fora.connectors.connector."
FTYPES = [("dir", _stat.S_IFDIR), ("chr", _stat.S_IFCHR), ("blk", _stat.S_IFBLK), ("file", _stat.S_IFREG), ("fifo", _stat.S_IFIFO), ("link", _stat.S_IFLNK), ("sock", _stat.S_IFSOCK)]
ISFN = {"S_ISDIR": _stat.S_IFDIR, "S_ISCHR": _stat.S_IFCHR, "S_ISBLK": _stat.S_IFBLK, "S_ISREG": _stat.S_IFREG, "S_ISFIFO": _stat.S_IFIFO, "S_ISLNK": _stat.S_IFLNK, "S_ISSOCK": _stat.S_IFSOCK}
OSERR = {"ENOENT": "FileNotFoundError", "EACCES": "PermissionError", "EPERM": "PermissionError", "ENOTDIR": "NotADirectoryError", "EISDIR": "IsADirectoryError", "EEXIST": "FileExistsError", "EINTR": "InterruptedError",
         "ETIMEDOUT": "TimeoutError", "EPIPE": "BrokenPipeError", "ECHILD": "ChildProcessError", "ESRCH": "ProcessLookupError", "EAGAIN": "BlockingIOError", "ECONNRESET": "ConnectionResetError"}


def oserror(name):
    def mkx(ii):
        no = getattr(_errno, name)
        return Inst(Ext("builtins." + OSERR.get(name, "OSError")), {"args": TupleV([K(no), K("strerror " + name)]), "errno": K(no), "strerror": K("strerror " + name), "filename": NONE}, ii.epoch)
    mkx.label = name
    return mkx


def errno_names(i):
    """Error numbers the dispatcher's source distinguishes, by number or by the class of the exception."""
    by_class = {"PermissionError": "EACCES", "FileExistsError": "EEXIST", "IsADirectoryError": "EISDIR", "NotADirectoryError": "ENOTDIR", "InterruptedError": "EINTR", "TimeoutError": "ETIMEDOUT",
                "BrokenPipeError": "EPIPE", "ChildProcessError": "ECHILD", "ProcessLookupError": "ESRCH", "BlockingIOError": "EAGAIN", "ConnectionResetError": "ECONNRESET"}
    memo = i.__dict__.setdefault("$errno_names", [])
    if memo:
        return memo[0]
    out = []
    memo.append(out)
    for mod in ("fora.connectors.tunnel_dispatcher", "fora.connectors.tunnel_connector", "fora.connection"):
        for x in ast.walk(i.prog.trees.get(mod, ast.Module([], []))):
            nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
            nm = by_class.get(nm, nm)
            if nm and nm[0] == "E" and nm.isupper() and hasattr(_errno, nm) and nm not in out:
                out.append(nm)
            elif isinstance(x, ast.Constant) and type(x.value) is int and x.value in (1, 13, 20, 21, 40, 17):
                nm = _errno.errorcode[x.value]
                if nm not in out:
                    out.append(nm)
    return out


def plain(name, *args):
    def mkx(ii):
        a = {"args": TupleV([K("injected")])}
        if name == "OSError":
            a.update(errno=NONE, strerror=NONE, filename=NONE)
        return Inst(Ext(name if "." in name else "builtins." + name), a, ii.epoch)
    mkx.label = name
    return mkx


PURE_OS = ("os.path.", "os.getuid", "os.getgid", "os.geteuid", "os.getegid", "os.strerror", "os.getenv", "os.environ", "os.fspath", "os.fsencode", "os.fsdecode", "os.getpid", "os.umask")


class FaultMap(dict):
    """Natural outcomes are always possible; in addition at most one injected fault per path, on the server's side."""

    def __init__(self, i, natural, faults):
        super().__init__()
        self.i, self.natural, self.faults = i, natural, faults

    def get(self, name, default=None):
        out = list(self.natural.get(name, ()))
        ii = self.i
        faults = std_faults_of(ii) if self.faults is std_faults else self.faults
        if faults and not ii.notes.get("$fault") and ii.notes.get("$side") == "server" and any(k == "recv" for k, _ in ii.notes["$srv"]["events"]):
            for mkx in faults(name):
                def f(ii2, mkx=mkx, name=name):
                    ii2.notes["$fault"] = (name, mkx.label)
                    return mkx(ii2)
                out.append(f)
        return out


def std_faults(name):
    if name.startswith(PURE_OS):
        return []
    if name.startswith("os.") or name == "builtins.open":
        return [oserror("EIO"), plain("OSError"), plain("ValueError")]
    if name in ("pwd.getpwuid", "grp.getgrgid"):
        return [plain("OverflowError")]
    if name in ("spwd.getspnam",):
        return [oserror("EACCES")]
    if name.startswith("subprocess."):
        return [oserror("ENOENT"), plain("ValueError"), plain("subprocess.SubprocessError")]
    if name in ("meth:read", "meth:write", "meth:close"):
        return [oserror("EIO")]
    return []


def std_faults_of(i):
    """In addition one error for every error number or exception class the source treats specially."""
    more = [x for x in errno_names(i) if x not in ("EIO", "EINVAL")]

    def f(name):
        out = list(std_faults(name))
        if out and (name in ("os.stat", "os.lstat", "builtins.open", "subprocess.run", "os.chown", "os.chmod")):
            out += [oserror(x) for x in more if x not in [y.label for y in out]]
        return out
    return f


def os_model(cfg, i):
    """A deterministic remote operating system: account databases, environment, node types."""
    prev = cfg.attr_hook

    def ent(kind, key_ty):
        def h(ii, a, k, n):
            key = ii.facts.deep(freeze(ii.split(a[0]) if isinstance(a[0], S) else a[0]))
            t = mk(kind, key)
            TYPES.setdefault(t, Ty("opaque"))
            ii.emit("ext", ENT_NAMES[kind], {"0": key}, n, res=t)
            if ii.notes.get("$side") == "server":
                ii.maybe_raise(ENT_NAMES[kind], n)
            if not ii.decide(mk("exists", t)):
                ii.raise_("KeyError", K("no entry"), n)
            return t
        return h
    for kind, nm in ENT_NAMES.items():
        cfg.ext[nm] = ent(kind, None)

    def all_groups(ii, a, k, n):
        out = []
        for j in range(2):
            t = mk("grent", j)
            TYPES.setdefault(t, Ty("opaque"))
            out.append(t)
        ii.emit("ext", "grp.getgrall", {}, n)
        return ListObj(out, ii.epoch)
    cfg.ext["grp.getgrall"] = all_groups

    def attr_hook(ii, base, name):
        if isinstance(base, S) and (base.op in ENT_NAMES or base.op == "grent"):
            t = mk("attr", base, name)
            TYPES.setdefault(t, T_INT if name in ("pw_uid", "pw_gid", "gr_gid") else Ty("list", False, None, T_STR) if name == "gr_mem" else T_STR)
            return t
        return prev(ii, base, name) if prev is not None else None
    cfg.attr_hook = attr_hook

    old_int = i.ext_models["builtins.int"]

    def int_(ii, a, k, n):
        v = a[0] if a else K(0)
        if isinstance(v, S):
            v = ii.facts.simp(v)
        if isinstance(v, S) and typeof(v).kind == "str" and not (v.op == "str" and typeof(v.a[0]).kind == "int"):
            b = a[1] if len(a) > 1 else k.get("base", K(10))
            if not ii.decide(mk("isint", v, freeze(b))):
                ii.raise_("ValueError", K("invalid literal"), n)
        return old_int(ii, a, k, n)
    cfg.ext["builtins.int"] = int_

    def ostat(follow):
        def h(ii, a, k, n):
            fl = k.get("follow_symlinks", TRUE) if follow else FALSE
            if not isinstance(fl, K):
                # both kinds of calls, the decision is visible in the facts
                fl = K(bool(ii.decide(truthy_atom(fl))))
            res = ii.fresh("os.stat", a[0], fl, ty=Ty("opaque"))
            ii.emit("ext", "os.stat", {"path": a[0], "follow_symlinks": fl}, n, res=res)
            ii.maybe_raise("os.stat", n)
            j = ii.choose(len(FTYPES), "node type")
            ii.notes["$ftype"] = FTYPES[j]
            at = {"$ns": TRUE, "$of": res}
            for f in ("st_uid", "st_gid", "st_size", "st_mtime_ns", "st_ctime_ns", "st_atime_ns", "st_nlink", "st_ino", "st_dev"):
                t = mk("attr", res, f)
                TYPES.setdefault(t, T_INT)
                at[f] = t
            for f in ("st_mtime", "st_ctime"):
                at[f] = mk("attr", res, f)
            at["st_mode"] = mk("stmode", res, K(FTYPES[j][1]))
            TYPES.setdefault(at["st_mode"], T_INT)
            bits = getattr(ii.cfg, "mode_bits", None)
            if bits is not None:
                ii.notes["$bits"] = b = bits[ii.choose(len(bits), "mode bits")]
                at["st_mode"] = K(FTYPES[j][1] | b)
            return Inst(Ext("types.SimpleNamespace"), at, ii.epoch)
        return h
    cfg.ext["os.stat"] = ostat(True)
    cfg.ext["os.lstat"] = ostat(False)

    def perm(t):
        r = mk("perm", t.a[0])
        TYPES.setdefault(r, T_INT)
        return r

    def smode(name):
        def h(ii, a, k, n):
            v = a[0]
            if isinstance(v, S) and v.op == "stmode":
                if name in ISFN:
                    return K(v.a[1].v == ISFN[name])
                if name == "S_IFMT":
                    return v.a[1]
                return perm(v)
            if isinstance(v, K) and isinstance(v.v, int):
                return K(getattr(_stat, name)(v.v))
            return ii.extmod.call_term("stat." + name, a, k)
        return h
    for nm in list(ISFN) + ["S_IFMT", "S_IMODE"]:
        cfg.ext["stat." + nm] = smode(nm)

    def bin_hook(ii, op, a, b):
        if isinstance(op, ast.BitAnd):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, S) and x.op == "stmode" and isinstance(y, K):
                    if y.v == 0o7777:
                        return perm(x)
                    if y.v == 0o170000:
                        return x.a[1]
        return None
    cfg.bin_hook = bin_hook

    def sprun(ii, a, k, n):
        res = ii.fresh("process", ty=Ty("opaque"))
        b = {"args": a[0] if a else k.get("args", NONE)}
        b.update({kk: v for kk, v in k.items() if kk != "args"})
        ii.emit("ext", "subprocess.run", b, n, res=res, raw=dict(b))
        ii.maybe_raise("subprocess.run", n)
        run_child(ii, k, n)
        captured = {}
        for f in ("stdout", "stderr"):
            v = k.get(f, NONE)
            cap = (isinstance(v, Ext) and v.name == "subprocess.PIPE") or k.get("capture_output") is TRUE
            t = mk("attr", res, f)
            TYPES.setdefault(t, T_BYTES)
            captured[f] = t if cap else NONE
        rc = mk("attr", res, "returncode")
        TYPES.setdefault(rc, T_INT)
        if ii.truth(k.get("check", FALSE)):
            if not ii.decide(eq_atom(rc, K(0))):
                raise AbsRaise(ii.make_exc("subprocess.CalledProcessError", K("cmd"), returncode=rc, cmd=b["args"], output=captured["stdout"], stdout=captured["stdout"], stderr=captured["stderr"]), n, ii.loc(n))
        return Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "args": b["args"], "returncode": rc, **captured}, ii.epoch)
    cfg.ext["subprocess.run"] = sprun
    cfg.ext["os.getenv"] = lambda ii, a, k, n: _env(ii, a, k, n)
    cfg.ext["os.environ.get"] = lambda ii, a, k, n: _env(ii, a, k, n)


def run_child(ii, k, n):
    """What happens in the child process before the command is executed (CPython's order)."""
    side = ii.notes.get("$side")
    ii.notes["$side"] = "child"
    try:
        for kw, ev, arg in (("cwd", "os.chdir", "0"), ("umask", "os.umask", "0"), ("extra_groups", "os.setgroups", "0"), ("group", "os.setresgid", "0"), ("user", "os.setresuid", "0")):
            v = k.get(kw, NONE)
            if v is NONE or (isinstance(v, K) and kw == "umask" and v.v == -1):
                continue
            if isinstance(v, S) and typeof(v).nullable and ii.decide(none_atom(v)):
                continue
            ii.emit("child", ev, {"0": v}, n)
        pre = k.get("preexec_fn", NONE)
        if pre is not NONE:
            n0 = len(ii.events)
            try:
                ii.call(pre, [], {}, n)
            except AbsRaise:
                ii.emit("child", "failed", {}, n)
                raise AbsRaise(ii.make_exc("subprocess.SubprocessError", K("Exception occurred in preexec_fn.")), n, ii.loc(n))
            for e in ii.events[n0:]:
                if e.kind == "ext":
                    e.kind = "child"
        ii.emit("child", "exec", {}, n)
    finally:
        ii.notes["$side"] = side


def _env(ii, a, k, n):
    t = mk("environ", freeze(a[0]))
    TYPES.setdefault(t, Ty("str", True))
    ii.emit("ext", "os.getenv", {"key": a[0]}, n, res=t)
    d = a[1] if len(a) > 1 else k.get("default", NONE)
    if d is not NONE:
        return d if ii.decide(none_atom(t)) else t
    return t


ENT_NAMES = {"pwnam": "pwd.getpwnam", "pwuid": "pwd.getpwuid", "grnam": "grp.getgrnam", "grgid": "grp.getgrgid", "spnam": "spwd.getspnam"}


# --------------------------------------------------------------------------
# The dispatcher as a server


def rpc(cfg, i):
    """Connects the client's packets to the dispatcher (the transport is decided by the codec properties)."""
    cfg.stream_breaks = False
    cfg.ext_attrs = dict(getattr(cfg, "ext_attrs", None) or {})
    cfg.ext_attrs["sys.argv"] = TupleV([K("-c")])

    def wp(ii, bound, node, fn):
        p = bound.get("packet")
        if ii.notes.get("$side") == "server":
            ii.emit("reply", p.cls.name if isinstance(p, Inst) else "?", {"packet": freeze(p)}, node, raw=p)
            ii.notes["$srv"]["replies"].append(p)
            ii.notes["$srv"]["events"].append(("reply", p))
        else:
            ii.emit("request", p.cls.name if isinstance(p, Inst) else "?", {"packet": freeze(p)}, node, raw=p)
            ii.notes.setdefault("$pending", []).append(p)
        return NONE

    def rp(ii, bound, node, fn):
        if ii.notes.get("$side") == "server":
            st = ii.notes["$srv"]
            k = st["k"]
            st["k"] = k + 1
            if k < len(st["req"]):
                st["events"].append(("recv", st["req"][k]))
                ii.emit("recv", st["req"][k].cls.name, {}, node)
                return st["req"][k]
            st["events"].append(("eof", None))
            if k > len(st["req"]) + 2:
                raise AbsRaise(ii.make_exc("SystemExit", K(0)), node, ii.loc(node))
            raise AbsRaise(ii.make_exc("OSError", K("Unexpected EOF"), errno=NONE, strerror=NONE), node, ii.loc(node))
        pend = ii.notes.get("$pending", [])
        if not pend:
            raise M.Unsupported("response awaited without a request")
        req = pend.pop(0)
        ii.notes["$pending"] = pend
        if cfg.stream_breaks and ii.notes.get("$opened") and ii.choose(2, "stream breaks"):
            ii.notes["$broken"] = True
            raise AbsRaise(ii.make_exc("OSError", K("Unexpected EOF in data stream"), errno=NONE, strerror=NONE), node, ii.loc(node))
        st = run_server(ii, [req])
        ii.notes["$last"] = st
        if len(st["replies"]) != 1:
            ii.notes["$unanswered"] = st
            raise AbsRaise(ii.make_exc("OSError", K("Unexpected EOF"), errno=NONE, strerror=NONE), node, ii.loc(node))
        r = st["replies"][0]
        if r.cls.name == "PacketOSError":
            e = ii.call(M.lookup(ii, TD + ".RemoteOSError"), [], {"errno": r.attrs["errno"], "strerror": r.attrs["strerror"], "msg": r.attrs["msg"]}, node)
            raise AbsRaise(e, node, ii.loc(node))
        if r.cls.name == "PacketInvalidField":
            raise AbsRaise(ii.make_exc("ValueError", freeze(r.attrs["error_message"])), node, ii.loc(node))
        return r
    cfg.intercepts[TD + ".receive_packet"] = rp
    cfg.intercepts[TD + ".Connection.write_packet"] = wp

    def popen(ii, a, k, n):
        from ..ext import new_stream
        b = {"args": a[0] if a else k.get("args", NONE)}
        b.update({kk: v for kk, v in k.items() if kk != "args"})
        ii.emit("ext", "subprocess.Popen", b, n, raw=dict(b))

        def ev(nm, res=NONE):
            def f(i2, aa, kk, nn):
                i2.emit("proc", nm, {}, nn)
                i2.maybe_raise("proc:" + nm, nn)
                return res
            return PyFn("proc." + nm, f)
        at = {"$ns": TRUE, "poll": ev("poll", NONE), "wait": ev("wait", K(0)), "terminate": ev("terminate"), "kill": ev("kill"), "returncode": NONE,
              "stdin": new_stream(ii, [], "procin"), "stdout": new_stream(ii, [], "procout"), "stderr": NONE, "pid": M.sym("pid", T_INT)}
        return Inst(Ext("types.SimpleNamespace"), at, ii.epoch)
    cfg.ext["subprocess.Popen"] = popen


def run_server(ii, requests, name_main=True):
    """Runs the dispatcher's main function on the given requests; the stream ends after the last one."""
    m = td_module(ii)
    ii.touch(m)
    st = {"k": 0, "req": list(requests), "replies": [], "events": [], "end": None}
    saved = (m.vars.get("__name__"), m.vars.get("fora"), m.vars.get("is_server"), m.vars.get("debug"), ii.notes.get("$side"), ii.notes.get("$srv"))
    ii.notes["$side"], ii.notes["$srv"] = "server", st
    if name_main:
        m.vars["__name__"] = K("__main__")
        m.vars.pop("fora", None)          # not installed on the remote system
    try:
        try:
            ii.call(server_main(ii), [], {}, None)
            st["end"] = "return"
        except AbsRaise as e:
            st["end"] = cls_name(e.exc.cls) if isinstance(e.exc, Inst) else "?"
            st["exc"], st["loc"] = e.exc, e.loc
    finally:
        for nm, v in zip(("__name__", "fora", "is_server", "debug"), saved):
            if v is not None:
                m.vars[nm] = v
        ii.notes["$side"], ii.notes["$srv"] = saved[4], saved[5]
    return st


def server_config(i, faults=None, natural=None):
    cfg = wire_config(i)
    os_model(cfg, i)
    rpc(cfg, i)
    cfg.raises = FaultMap(i, natural or {}, faults)
    return cfg


def new_connector(ii):
    """An opened connector to this machine."""
    cls = M.lookup(ii, "fora.connectors.local.LocalConnector")
    host = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": K("h")}, ii.epoch)
    c = ii.call(cls, [K("local:h"), host], {}, None)
    ii.call(ii.getattr_(c, "open", None), [], {}, None)
    return c


# --------------------------------------------------------------------------
# C16: every request is answered exactly once


def answered(i, ctx):
    ctx.rule("one-reply", "For every request, on every path through its handler, with any single failure of an operating system call, exactly one reply is sent before the next request is read (none for the request to exit).")
    ctx.rule("loop-continues", "After a request was answered the dispatcher waits for the next one.")
    ctx.rule("reply-type", "The reply is one the connector method that sends this request accepts; a reported invalid field is a field of the request.")
    ctx.rule("standalone", "The dispatcher needs nothing of fora on the remote system.")
    ctx.functions |= {TD + "." + server_main(i).name}
    imports(i, ctx)
    acc = acceptance(i, ctx)
    for cname, c in packet_classes(i).items():
        if not is_request(c):
            continue
        ctx.functions.add(c.qualname + ".handle")

        def entry(ii, c=c):
            M.set_globals(ii)
            over = {"command": M.sym("f.command", Ty("list", False, None, T_STR))} if "command" in field_types(ii, c) else None
            p = sample(ii, c, over)
            ii.notes["st"] = run_server(ii, [p])
            return NONE
        for p in ctx.take(explore(i, server_config(i, std_faults), entry, 6000), cname):
            st = p.notes.get("st")
            if st is None:
                continue
            fault = p.notes.get("$fault")
            lab = cname + (f"|{fault[0]}:{fault[1]}" if fault else "")
            what = f"{cname}" + (f" ({fault[0]} fails with {fault[1]})" if fault else "")
            evs = [k for k, _ in st["events"]]
            n = len(st["replies"])
            if st["end"] and st["end"].endswith("NameError") or st["end"].endswith("ModuleNotFoundError"):
                ctx.viol("standalone", cname, f"{cname}: the dispatcher fails with {st['end']} without fora installed", p, st.get("loc"))
                continue
            if cname == "PacketExit":
                ctx.check(n == 0, "one-reply", lab, "the request to exit is answered, although nobody reads the answer", p)
                ctx.check(evs == ["recv"] and st["end"] == "return", "one-reply", lab + "|stops", "the dispatcher doesn't stop when asked to exit", p)
                continue
            if not ctx.check(n == 1, "one-reply", lab, f"{what}: {n} replies are sent" + (f", the dispatcher terminates with {st['end']}" if st["end"] not in ("return", "builtins.SystemExit") else ""), p, st.get("loc")):
                continue
            ctx.check(evs[:3] == ["recv", "reply", "eof"], "loop-continues", lab, f"{what}: the dispatcher doesn't wait for another request ({' '.join(evs)}, {st['end']})", p)
            r = st["replies"][0]
            rn = r.cls.name if isinstance(r, Inst) else "?"
            if isinstance(r, Inst) and rn in packet_classes(i):
                for f, t in field_types(i, r.cls).items():
                    if not is_opt(t):
                        ctx.check(r.attrs.get(f) is not NONE and not (isinstance(r.attrs.get(f), S) and p.facts.isnone(r.attrs[f]) is True), "reply-type", f"{rn}.{f}|none", f"{what}: the reply {rn} has no value for '{f}' and cannot be sent", p)
            if rn == "PacketInvalidField":
                f = r.attrs.get("field")
                if isinstance(f, K):
                    ctx.check(f.v in field_types(i, c), "reply-type", f"{cname}|field", f"{cname}: the reply names the invalid field '{f.v}', which the request doesn't have", p)
            elif rn == "PacketOSError":
                ctx.ok("reply-type")
            elif cname in acc and rn in packet_classes(i):
                ctx.check(rn in acc[cname], "reply-type", f"{cname}|{rn}", f"{cname} is answered by {rn}, which the connector doesn't accept", p)


def imports(i, ctx):
    """Every import of the dispatcher that is executed on the remote system is one of the standard library."""
    mod = "fora.connectors.tunnel_dispatcher"
    std = set(sys.stdlib_module_names) | {"spwd", "crypt", "nis", "pipes", "typing"}

    def guarded(names):
        return any(n in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException", None) for n in names)

    def walk(nodes, ok):
        for x in nodes:
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                tops = [a.name.split(".")[0] for a in x.names] if isinstance(x, ast.Import) else [(x.module or "").split(".")[0] if not x.level else "."]
                for t in tops:
                    ctx.check(t in std or ok, "standalone", "import " + t, f"the dispatcher imports '{t}', which doesn't exist on the remote system", None, f"{i.prog.rel(mod)}:{x.lineno}")
            elif isinstance(x, ast.Try):
                names = []
                for h in x.handlers:
                    for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                        names.append(None if t is None else t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?"))
                walk(x.body, ok or guarded(names))
                for h in x.handlers:
                    walk(h.body, ok)
                walk(x.orelse + x.finalbody, ok)
            elif isinstance(x, ast.If):
                # conditions on the side or the type checker decide about the import
                side = any(isinstance(y, ast.Name) and y.id in ("TYPE_CHECKING", "is_server", "__name__") or isinstance(y, ast.Attribute) and y.attr == "TYPE_CHECKING" for y in ast.walk(x.test))
                walk(x.body, ok or side)
                walk(x.orelse, ok or side)
            else:
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(x, f, None)
                    if isinstance(b, list):
                        walk(b, ok)
    walk(i.prog.trees[mod].body, False)


METHODS = {
    "run": dict(command=Ty("list", False, None, T_STR), input=Ty("bytes", True), capture_output=T_BOOL, check=T_BOOL, user=Ty("str", True), group=Ty("str", True), umask=Ty("str", True), cwd=Ty("str", True)),
    "stat": dict(path=T_STR, follow_links=T_BOOL, sha512sum=T_BOOL),
    "resolve_user": dict(user=Ty("str", True)), "resolve_group": dict(group=Ty("str", True)),
    "query_user": dict(user=T_STR, query_password_hash=T_BOOL), "query_group": dict(group=T_STR),
    "getenv": dict(key=T_STR),
    "upload": dict(file=T_STR, content=T_BYTES, mode=Ty("str", True), owner=Ty("str", True), group=Ty("str", True)),
    "download": dict(file=T_STR),
}


def margs(m, only=None):
    return {k: M.sym("arg." + k, t) for k, t in METHODS[m].items() if only is None or k in only}


def acceptance(i, ctx):
    """request class -> response classes its sender accepts, from the connector's own code."""
    out = {}
    resp = {n: c for n, c in packet_classes(i).items() if not is_request(c) and n not in ("PacketOSError", "PacketInvalidField")}
    for m in METHODS:
        for rn, rc in resp.items():
            def entry(ii):
                M.set_globals(ii)
                c = new_connector(ii)
                ii.notes["phase"] = 1
                ii.notes.pop("req", None)
                return ii.call(ii.getattr_(c, m, None), [], margs(m), None)
            cfg = server_config(i)
            orig_rp, orig_wp = cfg.intercepts[TD + ".receive_packet"], cfg.intercepts[TD + ".Connection.write_packet"]

            def rp(ii, bound, node, fn, rc=rc):
                if not ii.notes.get("phase"):
                    return orig_rp(ii, bound, node, fn)
                ii.notes["$couple"] = 1
                return sample(ii, rc)

            def wp(ii, bound, node, fn):
                if ii.notes.get("phase"):
                    ii.notes["req"] = bound["packet"].cls.name
                    return NONE
                return orig_wp(ii, bound, node, fn)
            cfg.intercepts[TD + ".receive_packet"], cfg.intercepts[TD + ".Connection.write_packet"] = rp, wp
            for p in explore(i, cfg, entry, 400).paths:
                req = p.notes.get("req")
                if req is None:
                    continue
                out.setdefault(req, set())
                if p.kind != "raise" or "builtins.OSError" not in p.exc_names:
                    out[req].add(rn)
    return out


# --------------------------------------------------------------------------
# C17: nothing but packets on the packet stream

SPAWN = ("subprocess.Popen", "subprocess.call", "subprocess.check_call", "subprocess.check_output")
NOARGS_SPAWN = ("os.system", "os.popen", "os.posix_spawn", "os.fork", "subprocess.getoutput", "subprocess.getstatusoutput")


def stream_isolation(i, ctx):
    ctx.rule("child-stdin", "A command run by the dispatcher has an explicit standard input that is not the packet stream.")
    ctx.rule("child-stdout", "A command run by the dispatcher has an explicit standard output that is not the packet stream.")
    ctx.rule("server-stdout", "The dispatcher itself prints only to standard error, also in debug mode.")
    ctx.rule("tunnel-process", "The tunnel process is connected by two buffered pipes, and its standard error is neither part of the packet stream nor an unread pipe.")
    ctx.functions |= {TD + "." + server_main(i).name, "fora.connectors.tunnel_connector.TunnelConnector.open"}
    for cname, c in packet_classes(i).items():
        if not is_request(c):
            continue
        ctx.functions.add(c.qualname + ".handle")
        for argv in (("-c",), ("-c", "--debug")):
            def entry(ii, c=c):
                M.set_globals(ii)
                over = {"command": M.sym("f.command", Ty("list", False, None, T_STR))} if "command" in field_types(ii, c) else None
                p = sample(ii, c, over)
                ii.notes["st"] = run_server(ii, [p])
                return NONE
            cfg = server_config(i)
            cfg.ext_attrs["sys.argv"] = TupleV([K(x) for x in argv])
            for p in ctx.take(explore(i, cfg, entry, 6000), cname):
                for e in p.events:
                    if e.kind == "print":
                        f = e.args.get("file") if hasattr(e, "args") else e.arg("file")
                        ok = f is not None and f is not NONE and "sys.stdout" not in show(freeze(f))
                        ctx.check(ok, "server-stdout", "print", f"the dispatcher prints to the packet stream while handling {cname}", p, e.loc)
                    elif e.kind == "ext" and e.name.startswith(("sys.stdout", "sys.__stdout__")) and not e.name.endswith("flush"):
                        ctx.viol("server-stdout", e.name, f"the dispatcher uses {e.name} while handling {cname}", p, e.loc)
                    elif e.kind == "ext" and e.name in NOARGS_SPAWN:
                        ctx.viol("child-stdin", e.name, f"{e.name} lets a command inherit the packet stream ({cname})", p, e.loc)
                    elif e.kind == "ext" and (e.name == "subprocess.run" or e.name in SPAWN):
                        spawn_check(ctx, e, p, cname)
                    elif e.kind in ("ext", "child", "raised", "recv", "reply"):
                        ctx.ok("server-stdout")

    def entry2(ii):
        M.set_globals(ii)
        new_connector(ii)
        return NONE
    n = 0
    for p in ctx.take(explore(i, server_config(i), entry2, 500), "TunnelConnector.open"):
        for e in p.events:
            if e.kind == "ext" and e.name == "subprocess.Popen":
                n += 1
                g = lambda k: freeze(e.raw.get(k, NONE))
                for k in ("stdin", "stdout"):
                    ctx.check(_is(g(k), "subprocess.PIPE"), "tunnel-process", k, f"the tunnel's {k} is not a pipe", p, e.loc)
                err = g("stderr")
                ctx.check(not _is(err, "subprocess.STDOUT") and not _is(err, "sys.stdout"), "tunnel-process", "stderr", "the tunnel's error output is mixed into the packet stream", p, e.loc)
                ctx.check(not _is(err, "subprocess.PIPE"), "tunnel-process", "stderr|pipe", "the tunnel's error output is a pipe nobody reads", p, e.loc)
                bs = g("bufsize")
                ctx.check(bs is NONE or (isinstance(bs, K) and bs.v not in (0, 1)), "tunnel-process", "bufsize", "the tunnel's pipes are unbuffered, so reads may be short", p, e.loc)
                for k in ("text", "universal_newlines", "encoding"):
                    ctx.check(g(k) in (NONE, FALSE), "tunnel-process", k, "the tunnel's pipes are opened in text mode", p, e.loc)
    if not n:
        ctx.undec("TunnelConnector.open: no process started")


def _is(t, name):
    return isinstance(t, S) and t.op == "ext" and t.a[0] == name


def spawn_check(ctx, e, p, cname):
    kw = {k: freeze(v) for k, v in (e.raw or {}).items()} if isinstance(e.raw, dict) else {k: e.arg(k) for k in ("input", "stdin", "stdout", "stderr", "capture_output")}
    kw = {k: v for k, v in kw.items() if v is not None}
    isnone = lambda v: v is NONE or (isinstance(v, S) and p.facts.isnone(v) is True)
    maybe = lambda v: isinstance(v, S) and typeof(v).nullable and p.facts.isnone(v) is not False
    inp, sin = kw.get("input", NONE), kw.get("stdin", NONE)
    bad = (isnone(inp) or maybe(inp)) and isnone(sin) or _is(sin, "sys.stdin") or _is(sin, "sys.stdin.buffer") or sin is K(0)
    ctx.check(not bad, "child-stdin", cname, f"a command run for {cname} inherits the packet stream as its standard input", p, e.loc)
    out, cap = kw.get("stdout", NONE), kw.get("capture_output", FALSE)
    inherits = isnone(out) and not (cap is TRUE or (isinstance(cap, S) and p.facts.known(truthy_atom(cap)) is True))
    bad = inherits and e.name != "subprocess.check_output" or _is(out, "sys.stdout") or _is(out, "sys.stdout.buffer") or out is K(1)
    ctx.check(not bad, "child-stdout", cname, f"a command run for {cname} inherits the packet stream as its standard output", p, e.loc)
    err = kw.get("stderr", NONE)
    ctx.check(not (_is(err, "sys.stdout") or err is K(1) or (_is(err, "subprocess.STDOUT") and inherits)), "child-stdout", cname + "|stderr", f"a command run for {cname} writes its errors to the packet stream", p, e.loc)


# --------------------------------------------------------------------------
# The public connection API on top of the modelled remote system


def new_conn(ii):
    """A connection object whose connector is opened (the identity is not yet resolved, which keeps the paths apart)."""
    M.set_globals(ii)
    m = ii.modules["fora"]
    cc = M.lookup(ii, "fora.connection.Connection")
    lc = M.lookup(ii, "fora.connectors.local.LocalConnector")
    rs = M.lookup(ii, "fora.remote_settings.RemoteSettings")
    host = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": K("h")}, ii.epoch)
    host.attrs["create_connector"] = PyFn("create_connector", lambda i, a, k, n: i.call(lc, [K("local:h"), host], {}, n))
    host.attrs["inventory"] = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "base_remote_settings": PyFn("brs", lambda i, a, k, n: i.call(rs, [], {}, n))}, ii.epoch)
    m.vars["host"] = host
    m.vars["script"] = ii.instantiate(M.lookup(ii, "fora.types.ScriptWrapper"), [K("s")], {}, None)
    conn = ii.call(cc, [host], {}, None)
    ii.call(ii.getattr_(ii.getattr_(conn, "connector", None), "open", None), [], {}, None)
    ii.notes["$opened"] = True
    ii.events.clear()
    return conn


CONN_METHODS = dict(METHODS)
CONN_METHODS["download_or"] = dict(file=T_STR, default=Ty("bytes", True))
CONN_METHODS["query_user"] = dict(user=T_STR, query_password_hash=T_BOOL, default=Ty("opaque", True))
CONN_METHODS["query_group"] = dict(group=T_STR, default=Ty("opaque", True))
CONN_METHODS["getenv"] = dict(key=T_STR, default=Ty("str", True))
CONN_METHODS["home_dir"] = dict(user=Ty("str", True))


def cargs(m, fixed=None):
    d = {k: M.sym("arg." + k, t) for k, t in CONN_METHODS[m].items()}
    d.update(fixed or {})
    return d


def api_paths(i, ctx, m, faults=None, natural=None, fixed=None, limit=6000, breaks=False, prep=None, only=None):
    """All paths of one public connection method down to the remote operating system calls."""
    ctx.functions.add("fora.connection.Connection." + m)

    def entry(ii):
        conn = new_conn(ii)
        ii.notes["args"] = a = {k: v for k, v in cargs(m, fixed).items() if only is None or k in only}
        return ii.call(ii.getattr_(conn, m, None), [], dict(a), None)
    out = []
    cfg = server_config(i, faults, natural)
    cfg.stream_breaks = breaks
    if prep is not None:
        prep(cfg)
    for p in ctx.take(explore(i, cfg, entry, limit), "Connection." + m):
        out += refine(p)
    return out


def _conds(t, facts, out, depth=0):
    if not isinstance(t, S) or depth > 12:
        return
    t = facts.simp(t)
    if not isinstance(t, S):
        return
    if t.op in ("ite", "or", "and"):
        c = truthy_atom(t.a[0])
        if facts.known(c) is None:
            out.append(c)
            return
    for x in t.a:
        _conds(x, facts, out, depth + 1)


def _visible(p):
    v = p.value if p.kind == "return" else p.exc
    if isinstance(v, Inst):
        yield from (freeze(x) for x in v.attrs.values())
    elif v is not None:
        yield freeze(v)
    for e in p.events:
        if e.kind in ("ext", "child", "meth", "reply"):
            for x in e.args.values():
                yield freeze(x)


def refine(p, limit=64):
    """Splits a path on the conditions inside its lazily evaluated values, so that every visible value is a definite one."""
    todo, out = [p], []
    while todo:
        q = todo.pop()
        cs = []
        if len(todo) + len(out) < limit:
            for t in _visible(q):
                _conds(t, q.facts, cs)
                if cs:
                    break
        if not cs:
            out.append(q)
            continue
        for val_ in (True, False):
            r = copy.copy(q)
            r.facts = q.facts.copy()
            try:
                r.facts.assume(cs[0], val_)
                if r.facts.known(cs[0]) is val_:
                    todo.append(r)
                else:
                    out.append(q)
                    break
            except Infeasible:
                pass
    return out


A = lambda k: M.sym("arg." + k)


def val(p, v):
    """The value as text-insensitive term under the path's facts."""
    return p.facts.deep(freeze(v)) if v is not None else NONE


def attr_of(p, name):
    v = p.value
    if isinstance(v, Inst):
        return val(p, v.attrs.get(name, NONE))
    return None


def known_none(p, t):
    return p.facts.isnone(t)


def lookup_ok(p, kind, key):
    """Whether the account entry exists on this path (None if never asked)."""
    return p.facts.known(mk("exists", mk(kind, key)))


def entry_for(p, nam, uid, key):
    """The account entry a name or number resolves to on this path, the way the system tools resolve it: by name, else by number."""
    if lookup_ok(p, nam, key):
        return mk(nam, key)
    num = mk(uid, mk("call", "int", key))
    if p.facts.known(mk("exists", num)):
        return num
    return None


def ext_events(p, *names):
    return [e for e in p.events if e.kind == "ext" and e.name in names]


def eqt(p, got, *want):
    g = val(p, got)
    return any(g is val(p, w) or p.facts.iseq(g, val(p, w)) is True for w in want)


def fidelity(i, ctx):
    ctx.rule("run", "A command is executed exactly as given, with the given input and no shell; the exit status and, if captured, the output are returned. A nonzero status raises CalledProcessError with these values exactly if checking is on.")
    ctx.rule("stat", "stat examines the given path, follows links exactly if asked to, and returns type, permission bits, owner, group, size and nanosecond times of that node, and the hash of its content if it is a file and the hash was requested.")
    ctx.rule("upload", "An upload writes exactly the given content to exactly the given file.")
    ctx.rule("download", "A download returns the whole content of the given file.")
    ctx.rule("query", "Account queries return the entry of the named (or numbered) account, with each value in its own field.")
    ctx.rule("resolve", "Resolving a user or group yields the name of the entry for the given name or number, or of the current identity if none is given.")
    ctx.rule("getenv", "getenv returns the remote variable of that name.")
    _fid_run(i, ctx)
    _fid_stat(i, ctx)
    _fid_files(i, ctx)
    _fid_accounts(i, ctx)


def _fid_run(i, ctx):
    n = 0
    for p in api_paths(i, ctx, "run"):
        runs = ext_events(p, "subprocess.run")
        if not runs:
            continue
        n += 1
        if not ctx.check(len(runs) == 1, "run", "count", f"the command is executed {len(runs)} times", p):
            continue
        e = runs[0]
        kw = e.raw
        ctx.check(eqt(p, kw["args"], A("command")), "run", "command", f"the executed command is {show(val(p, kw['args']))}", p, e.loc)
        sh_ = freeze(kw.get("shell", FALSE))
        ctx.check(sh_ in (FALSE, NONE), "run", "shell", "the command is interpreted by a shell", p, e.loc)
        ctx.check(freeze(kw.get("executable", NONE)) is NONE and freeze(kw.get("env", NONE)) is NONE, "run", "env", "the program or its environment is replaced", p, e.loc)
        inp = val(p, kw.get("input", NONE))
        if known_none(p, A("input")) is True:
            ctx.check(inp in (NONE, K(b"")), "run", "no-input", f"a command without input receives {show(inp)}", p, e.loc)
        else:
            ctx.check(inp is A("input") or inp == K(b"") and p.facts.known(truthy_atom(A("input"))) is False, "run", "input", f"the command receives {show(inp)} instead of the given input", p, e.loc)
        t = freeze(kw.get("timeout", NONE))
        ctx.check(t is NONE, "run", "timeout", "the command is subject to a time limit nobody requested", p, e.loc)
        res = e.res
        rc = mk("attr", res, "returncode")
        cap = p.facts.known(truthy_atom(A("capture_output")))
        if p.kind == "raise" and not p.excname.endswith("CalledProcessError"):
            continue
        chk = p.facts.known(truthy_atom(A("check")))
        zero = p.facts.iseq(rc, K(0))
        if zero is None and (tr := p.facts.known(truthy_atom(rc))) is not None:
            zero = not tr
        if p.kind == "return":
            ctx.check(zero is True or chk is False, "run", "check", "a command whose exit status is not known to be zero is returned as a success although checking is on", p)
            got = {"returncode": attr_of(p, "returncode"), "stdout": attr_of(p, "stdout"), "stderr": attr_of(p, "stderr")}
        else:
            ctx.check(chk is True and zero is not True, "run", "check|raise", "a command is reported as failed although checking is off or its exit status is zero", p)
            got = {"returncode": val(p, p.exc.attrs.get("returncode", NONE)), "stdout": val(p, p.exc.attrs.get("stdout", p.exc.attrs.get("output", NONE))), "stderr": val(p, p.exc.attrs.get("stderr", NONE))}
            ctx.check(eqt(p, p.exc.attrs.get("cmd", NONE), A("command")), "run", "error|cmd", "the error doesn't name the command", p)
        ctx.check(got["returncode"] is not None and (got["returncode"] is val(p, rc) or p.facts.iseq(got["returncode"], rc) is True), "run", "returncode", f"the reported exit status is {show(got['returncode'])}", p)
        if cap is not None:
            for f in ("stdout", "stderr"):
                w = mk("attr", res, f) if cap else NONE
                ctx.check(got[f] is w, "run", f, f"the reported {f} is {show(got[f])} instead of {show(w)} (capture_output={cap})", p)
        else:
            forwarded = any(A("capture_output") in list(subterms(freeze(kw.get(x, NONE)))) for x in ("stdout", "stderr", "capture_output"))
            ctx.check(forwarded or any(A("capture_output") in list(subterms(got[f])) for f in ("stdout", "stderr") if got[f] is not None), "run", "capture", "whether the output is captured doesn't depend on the request", p, e.loc)
    for p in api_paths(i, ctx, "run", only=("command",)):
        for e in ext_events(p, "subprocess.run"):
            rc = mk("attr", e.res, "returncode")
            zero = p.facts.iseq(rc, K(0))
            if zero is None and (tr := p.facts.known(truthy_atom(rc))) is not None:
                zero = not tr
            if p.kind == "return":
                ctx.check(zero is True, "run", "default|check", "a command run without further arguments is returned as a success although its exit status is not known to be zero", p)
                for f in ("stdout", "stderr"):
                    ctx.check(attr_of(p, f) is mk("attr", e.res, f), "run", "default|" + f, f"the {f} of a command run without further arguments is {show(attr_of(p, f))}", p)
                inp = val(p, e.raw.get("input", NONE))
                ctx.check(inp in (NONE, K(b"")), "run", "default|input", f"a command without input receives {show(inp)}", p, e.loc)
    if not n:
        ctx.undec("run: no command executed on any path")


def _fid_stat(i, ctx):
    n = 0
    for p in api_paths(i, ctx, "stat"):
        st = ext_events(p, "os.stat")
        if p.kind != "return" or not isinstance(p.value, Inst):
            continue
        n += 1
        if not ctx.check(len(st) >= 1, "stat", "node", "a result is returned without examining the node", p):
            continue
        e = st[-1]
        res = e.res
        ctx.check(eqt(p, e.arg("path"), A("path")), "stat", "path", f"the examined path is {show(val(p, e.arg('path')))}", p, e.loc)
        fl = p.facts.known(truthy_atom(A("follow_links")))
        ctx.check(fl is not None and e.arg("follow_symlinks") is K(fl), "stat", "follow_links", f"links are{'' if e.arg('follow_symlinks') is TRUE else ' not'} followed, contrary to the request", p, e.loc)
        ftype = p.notes["$ftype"][0]
        ctx.check(attr_of(p, "type") is K(ftype), "stat", "type|" + ftype, f"a node of type {ftype} is reported as {show(attr_of(p, 'type'))}", p)
        perm = mk("perm", res)
        md = attr_of(p, "mode")
        ok = isinstance(md, S) and perm in list(subterms(md)) and not any(isinstance(x, S) and x.op == "stmode" for x in subterms(md))
        ctx.check(ok, "stat", "mode", f"the reported mode is {show(md)}", p)
        for f, a in (("size", "st_size"), ("mtime", "st_mtime_ns"), ("ctime", "st_ctime_ns")):
            ctx.check(attr_of(p, f) is mk("attr", res, a), "stat", f, f"the reported {f} is {show(attr_of(p, f))}", p)
        for f, kind, a, nm in (("owner", "pwuid", "st_uid", "pw_name"), ("group", "grgid", "st_gid", "gr_name")):
            key = mk("attr", res, a)
            ent = mk(kind, key)
            ex = p.facts.known(mk("exists", ent))
            got = attr_of(p, f)
            if ex is True:
                ctx.check(got is mk("attr", ent, nm), "stat", f, f"the reported {f} is {show(got)}", p)
            else:
                ctx.check(isinstance(got, S) and key in list(subterms(got)) and not any(isinstance(x, S) and x.op in ENT_NAMES for x in subterms(got)), "stat", f + "|number", f"the {f} of a node whose id has no name is reported as {show(got)}", p)
        want = p.facts.known(truthy_atom(A("sha512sum")))
        sha = attr_of(p, "sha512sum")
        if ftype == "file" and want:
            opens = [x for x in ext_events(p, "builtins.open") if eqt(p, x.arg("file"), A("path"))]
            data = hashed(sha) if isinstance(sha, S) else None
            if data is None and isinstance(sha, S) and any(o.res in list(subterms(sha)) for o in opens):
                ctx.undec("stat: hash of an unknown form")
            else:
                ctx.check(bool(opens) and data is not None and any(whole(p, data, o.res) for o in opens), "stat", "sha512sum", f"the hash is that of {show(data) if data is not None else show(sha)}, not of the whole content", p)
            ctx.check(not any(isinstance(x, S) and x.op == "call" and x.a[0].startswith("hashlib.") and x.a[0] != "hashlib.sha512" for x in subterms(sha)), "stat", "sha512sum|algorithm", "another hash function is used", p)
            ctx.check(all("b" in str(getattr(o.arg("mode"), "v", "")) for o in opens), "stat", "sha512sum|binary", "the content is hashed in text mode", p)
        elif ftype == "file" and want is None:
            ctx.check(isinstance(sha, S) and A("sha512sum") in list(subterms(sha)), "stat", "sha512sum|asked", "whether a hash is reported doesn't depend on the request", p)
        else:
            ctx.check(sha is NONE, "stat", "sha512sum|none", f"a hash is reported although none was requested or the node is no file: {show(sha)}", p)
    for p in api_paths(i, ctx, "stat", only=("path",)):
        st = ext_events(p, "os.stat")
        if p.kind == "return" and isinstance(p.value, Inst) and st:
            ctx.check(st[-1].arg("follow_symlinks") is FALSE, "stat", "default|follow_links", "stat follows links although it wasn't asked to", p, st[-1].loc)
            ctx.check(attr_of(p, "sha512sum") is NONE, "stat", "default|sha512sum", "stat reports a hash although none was requested", p)

    def concrete(cfg):
        cfg.mode_bits = [0o644, 0o755, 0o4755, 0o1777, 0o2070, 0o7, 0]
    for p in api_paths(i, ctx, "stat", prep=concrete, fixed={"sha512sum": FALSE, "follow_links": FALSE}):
        if p.kind == "return" and isinstance(p.value, Inst):
            md, want = attr_of(p, "mode"), format(p.notes["$bits"], "o")
            if isinstance(md, K):
                ctx.check(md.v == want, "stat", "mode|" + want, f"the mode {want} is reported as {show(md)}", p)
    if not n:
        ctx.undec("stat: no result on any path")


def flat(t):
    if isinstance(t, S) and t.op in ("concat", "cat", "bcat"):
        return [y for x in t.a for y in flat(x)]
    return [] if isinstance(t, K) and t.v in (b"", "") else [t]


def whole(p, t, res):
    """The value consists of the whole content read from the opened file: one unlimited read, or all of its chunks in order, up to the end of the file."""
    st = p.notes.get("$files", {}).get(res)
    if st is None:
        return isinstance(t, S) and res in list(subterms(t)) and not any(isinstance(x, S) and x.op in ("slice", "getslice") for x in subterms(t))
    return st["eof"] and flat(t) == list(st["chunks"])


def hashed(t):
    """The data of a digest term."""
    for x in subterms(t):
        if isinstance(x, S) and x.op == "call" and str(x.a[0]).startswith("hashlib.") and len(x.a) > 1:
            return x.a[1]
    return None


def _writes(p):
    """(path, mode, data) of every file written."""
    out = []
    for e in ext_events(p, "builtins.open"):
        m = e.arg("mode")
        if isinstance(m, K) and any(c in m.v for c in "wax+"):
            data = [x for x in p.events if x.kind in ("meth", "ext") and x.name.endswith("write") and e.res in [s for a in x.args.values() for s in subterms(freeze(a))]]
            out.append((e, m.v, data))
    return out


def _fid_files(i, ctx):
    n = 0
    for p in api_paths(i, ctx, "upload"):
        ws = _writes(p)
        if p.kind == "return":
            n += 1
            if [e for e in _mutations(p) if e.name in ("os.open", "os.replace", "os.rename", "os.write", "os.pwrite") or e.name.startswith(("tempfile.", "shutil.", "pathlib."))]:
                ctx.undec("upload: the file is written by other means")
                continue
            if not ctx.check(len(ws) == 1, "upload", "count", f"{len(ws)} files are written by an upload", p):
                continue
            e, m, data = ws[0]
            ctx.check(eqt(p, e.arg("file"), A("file")), "upload", "file", f"the upload is written to {show(val(p, e.arg('file')))}", p, e.loc)
            ctx.check(m.replace("+", "") in ("wb", "bw"), "upload", "mode", f"the file is opened in mode '{m}'", p, e.loc)
            ctx.check(len(data) == 1 and any(val(p, a) is A("content") for a in data[0].args.values()), "upload", "content", "the written content is not the uploaded one", p, e.loc)
    if not n:
        ctx.undec("upload: no completed path")
    for m in ("download", "download_or"):
        for p in api_paths(i, ctx, m):
            op = ext_events(p, "builtins.open")
            if p.kind == "return":
                v = val(p, p.value)
                ok = len(op) == 1 and whole(p, v, op[0].res)
                ctx.check(ok, "download", m, f"{m} returns {show(v)}, not the whole content", p)
                for e in op:
                    ctx.check(eqt(p, e.arg("file"), A("file")) and "b" in str(getattr(e.arg("mode"), "v", "")), "download", m + "|file", "another file is read, or in text mode", p, e.loc)


def _fid_accounts(i, ctx):
    for m, key, nam, uid, nm, cur in (("resolve_user", "user", "pwnam", "pwuid", "pw_name", "os.getuid"), ("resolve_group", "group", "grnam", "grgid", "gr_name", "os.getgid")):
        for p in api_paths(i, ctx, m):
            if p.kind != "return":
                continue
            v = val(p, p.value)
            if known_none(p, A(key)) is True:
                ok = isinstance(v, S) and v.op == "attr" and v.a[1] == nm and _about_current(p, v, cur)
                ctx.check(ok, "resolve", m + "|current", f"{m}(None) yields {show(v)}", p)
            else:
                ent = entry_for(p, nam, uid, A(key))
                ctx.check(ent is not None and (v is mk("attr", ent, nm)), "resolve", m, f"{m} yields {show(v)}", p)
    for p in api_paths(i, ctx, "query_user"):
        if p.kind != "return" or not isinstance(p.value, Inst):
            continue
        ent = entry_for(p, "pwnam", "pwuid", A("user"))
        if not ctx.check(ent is not None, "query", "user", "an entry is returned for a user that wasn't found", p):
            continue
        for f, a in (("name", "pw_name"), ("uid", "pw_uid"), ("gid", "pw_gid"), ("gecos", "pw_gecos"), ("home", "pw_dir"), ("shell", "pw_shell")):
            ctx.check(attr_of(p, f) is mk("attr", ent, a), "query", "user." + f, f"the field '{f}' of a user is {show(attr_of(p, f))}", p)
        g = mk("grgid", mk("attr", ent, "pw_gid"))
        got = attr_of(p, "group")
        if p.facts.known(mk("exists", g)) is True:
            ctx.check(got is mk("attr", g, "gr_name"), "query", "user.group", f"the primary group of a user is {show(got)}", p)
        gs = p.value.attrs.get("groups")
        if isinstance(gs, (ListObj, TupleV)) and all(isinstance(x, S) for x in gs.items):
            for j in range(2):
                g = mk("grent", j)
                mem = p.facts.known(mk("in", mk("attr", ent, "pw_name"), mk("attr", g, "gr_mem")))
                asked = [x.a[0] for x in p.facts.d if isinstance(x, S) and x.op == "in" and x.a[1] is mk("attr", g, "gr_mem")]
                if mem is None and ent.op == "pwnam" and A("user") in asked:
                    mem = p.facts.known(mk("in", A("user"), mk("attr", g, "gr_mem")))
                if mem is None and asked:
                    ctx.viol("query", "user.groups", f"the groups of a user are those of {show(asked[0])}", p)
                elif mem is not None:
                    listed = any(val(p, x) is mk("attr", g, "gr_name") for x in gs.items)
                    ctx.check(listed == mem, "query", "user.groups", f"a group is {'' if listed else 'not '}listed for a user that is {'' if mem else 'not '}its member", p)
        wantpw = p.facts.known(truthy_atom(A("query_password_hash")))
        pw = attr_of(p, "password_hash")
        sp = mk("spnam", mk("attr", ent, "pw_name"))
        if wantpw is False or p.facts.known(mk("exists", sp)) is False:
            ctx.check(pw is NONE, "query", "user.password_hash|none", f"the password hash of a user is {show(pw)} although none was requested or there is none", p)
        elif wantpw:
            ctx.check(pw is mk("attr", sp, "sp_pwdp") or pw is mk("attr", sp, "sp_pwd"), "query", "user.password_hash", f"the password hash of a user is {show(pw)}", p)
        else:
            ctx.check(isinstance(pw, S) and A("query_password_hash") in list(subterms(pw)), "query", "user.password_hash|asked", "whether a password hash is reported doesn't depend on the request", p)
    for p in api_paths(i, ctx, "query_user", only=("user",)):
        if p.kind == "return" and isinstance(p.value, Inst):
            ctx.check(attr_of(p, "password_hash") is NONE, "query", "default|password_hash", "a password hash is reported although none was requested", p)
    for p in api_paths(i, ctx, "query_group"):
        if p.kind != "return" or not isinstance(p.value, Inst):
            continue
        ent = entry_for(p, "grnam", "grgid", A("group"))
        if not ctx.check(ent is not None, "query", "group", "an entry is returned for a group that wasn't found", p):
            continue
        for f, a in (("name", "gr_name"), ("gid", "gr_gid"), ("members", "gr_mem")):
            ctx.check(attr_of(p, f) is mk("attr", ent, a), "query", "group." + f, f"the field '{f}' of a group is {show(attr_of(p, f))}", p)
    def as_other(cfg):
        rs = M.lookup(i, "fora.remote_settings.RemoteSettings")
        cfg.intercepts["fora.types.ScriptWrapper.current_defaults"] = lambda ii, b, n, fn: ii.call(rs, [], {"as_user": M.sym("scope.user", T_STR), "owner": M.sym("scope.owner", T_STR)}, n)
    for p in api_paths(i, ctx, "home_dir", prep=as_other, fixed={"user": NONE}):
        if p.kind == "return":
            v = val(p, p.value)
            ok = isinstance(v, S) and v.op == "attr" and v.a[1] == "pw_dir" and _about_current(p, v, "os.getuid")
            ctx.check(ok, "query", "home_dir|current", f"the home directory of the current user is {show(v)}", p)
    for p in api_paths(i, ctx, "home_dir", prep=as_other, fixed={"user": M.sym("arg.user", T_STR)}):
        if p.kind == "return" and p.facts.known(truthy_atom(A("user"))) is not False:
            v = val(p, p.value)
            ent = entry_for(p, "pwnam", "pwuid", A("user"))
            ok = isinstance(v, S) and v.op == "attr" and v.a[1] == "pw_dir" and ent is not None and v.a[0] is ent
            ctx.check(ok, "query", "home_dir", f"home_dir yields {show(v)}", p)
    for p in api_paths(i, ctx, "getenv"):
        if not ctx.check(p.kind == "return", "getenv", "raises", f"getenv raises {p.excname if p.kind == 'raise' else ''}", p):
            continue
        env = mk("environ", A("key"))
        v = val(p, p.value)
        if p.facts.isnone(env) is True:
            ctx.check(v is val(p, A("default")), "getenv", "default", f"getenv yields {show(v)} for an unset variable", p)
        else:
            ctx.check(v is env or (isinstance(v, S) and v.op == "ite" and env in v.a), "getenv", "value", f"getenv yields {show(v)}", p)


def _about_current(p, v, cur):
    return any(isinstance(x, S) and x.op == "res" and x.a[0] == cur for x in subterms(v)) or any(isinstance(x, S) and x.op == "call" and x.a[0] == cur for x in subterms(v))


# --------------------------------------------------------------------------
# C20: identity, permissions and validation on the remote side

MUTATING = {"subprocess.run", "subprocess.Popen", "os.chown", "os.lchown", "os.fchown", "os.chmod", "os.fchmod", "os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.symlink", "os.link", "os.truncate", "os.utime"}


def _mutations(p):
    out = []
    for e in p.events:
        if e.kind != "ext":
            continue
        if e.name in MUTATING:
            out.append(e)
        elif e.name == "builtins.open":
            m = e.arg("mode")
            if isinstance(m, K) and any(c in m.v for c in "wax+"):
                out.append(e)
        elif e.name == "os.open":
            out.append(e)
    return out


def _num(p, t):
    return p.facts.deep(freeze(t)) if t is not None else None


def _same(p, a, b):
    a, b = _num(p, a), _num(p, b)
    return a is b or p.facts.iseq(a, b) is True


def _zero(p, t):
    return isinstance(t, S) and (p.facts.iseq(t, K(0)) is True or p.facts.known(truthy_atom(t)) is False)


def _args(e):
    out, n = [], 0
    while str(n) in e.args:
        out.append(e.args[str(n)])
        n += 1
    return out or list(e.args.values())


def identity(i, ctx):
    ctx.rule("validate-first", "A request with an unknown user or group, a mode or umask that is not octal, or a missing working directory is rejected before anything is executed, written or changed.")
    ctx.rule("valid-accepted", "A request whose parameters all resolve is carried out.")
    ctx.rule("child-user", "A command runs with the real, effective and saved uid of the requested user (of the current one if none is requested).")
    ctx.rule("child-group", "A command runs with the gid of the requested group, else with the primary group of the requested user, set while still privileged.")
    ctx.rule("child-groups", "The supplementary groups of the dispatcher are replaced before the identity is given up.")
    ctx.rule("child-umask", "A command runs with the requested umask.")
    ctx.rule("child-cwd", "A command runs in the requested directory.")
    ctx.rule("upload-owner", "An uploaded file gets the requested owner and group.")
    ctx.rule("upload-mode", "An uploaded file gets exactly the requested mode, also after its ownership changed.")
    ctx.rule("private", "Files created by the dispatcher are private until their requested permissions are applied: the umask is restricted before the first request.")
    ctx.rule("own-user", "A command for the user the dispatcher itself runs as needs no privileges, as the defaults of a connection always request that user.")
    _id_run(i, ctx)
    _id_own(i, ctx)
    _id_upload(i, ctx)
    _id_umask(i, ctx)


def _unresolved(p, key, nam, uid):
    """Known not to resolve: neither by name, nor as a number."""
    if p.facts.isnone(A(key)) is True:
        return False
    if lookup_ok(p, nam, A(key)) is not False:
        return False
    num = mk(uid, mk("call", "int", A(key)))
    return p.facts.known(mk("exists", num)) is False or p.facts.known(mk("isint", A(key), K(10))) is False


def _id_run(i, ctx):
    U, G, UM, CW = A("user"), A("group"), A("umask"), A("cwd")
    n = 0
    for p in api_paths(i, ctx, "run"):
        if p.kind == "raise" and "builtins.ValueError" in p.exc_names:
            # preexec failures surface as ValueError as well, after the child was started
            muts = [e for e in _mutations(p)]
            if any(e.kind == "child" and e.name == "failed" for e in p.events):
                continue
            ctx.check(not muts, "validate-first", "run", "a command is rejected after something was already executed or changed", p, muts[0].loc if muts else None)
            why = _unresolved(p, "user", "pwnam", "pwuid") or _unresolved(p, "group", "grnam", "grgid") or p.facts.known(mk("isint", UM, K(8))) is False or _not_dir(p, CW)
            ctx.check(why, "valid-accepted", "run", "a command with resolvable parameters is rejected", p)
            continue
        if p.kind == "raise" and not p.excname.endswith("CalledProcessError"):
            ctx.viol("valid-accepted", "run|fails", f"a command with valid parameters fails with {p.excname}, without a failing system call", p)
            continue
        ex = [k for k, e in enumerate(p.events) if e.kind == "child" and e.name == "exec"]
        if not ex:
            continue
        n += 1
        child = [e for e in p.events[:ex[0]] if e.kind == "child"]
        who = {nm: [(k, e) for k, e in enumerate(child) if e.name in names] for nm, names in
               (("uid", ("os.setresuid", "os.setuid", "os.setreuid", "os.seteuid")), ("gid", ("os.setresgid", "os.setgid", "os.setregid", "os.setegid")),
                ("grp", ("os.initgroups", "os.setgroups")), ("umask", ("os.umask",)), ("cwd", ("os.chdir",)))}
        loc = child[0].loc if child else None
        urq = p.facts.isnone(U) is not True
        grq = p.facts.isnone(G) is not True
        uent = entry_for(p, "pwnam", "pwuid", U) if urq else None
        gent = entry_for(p, "grnam", "grgid", G) if grq else None
        if urq and uent is None or grq and gent is None:
            bad = "user" if urq and uent is None else "group"
            ctx.viol("validate-first", "run|" + bad, f"a command is executed although the requested {bad} wasn't resolved", p, loc)
            continue
        for nm, t, base in (("umask", UM, 8),):
            if p.facts.isnone(t) is not True:
                ctx.check(p.facts.known(mk("isint", t, K(base))) is True, "validate-first", "run|umask", "a command is executed although the umask wasn't validated", p, loc)
        # user
        if urq:
            want = mk("attr", uent, "pw_uid")
            ok = bool(who["uid"]) and who["uid"][-1][1].name in ("os.setresuid", "os.setuid", "os.setreuid") and all(_same(p, a, want) for a in _args(who["uid"][-1][1]))
            isself = _is_self(p, want)
            ctx.check(ok or (isself and not who["uid"]), "child-user", "run|user", "a command requested for another user is executed without switching to exactly that uid", p, loc)
        else:
            ctx.check(not who["uid"], "child-user", "run|nobody", "a command is executed as another user although none was requested", p, loc)
        # group
        want = mk("attr", gent, "gr_gid") if grq else mk("attr", uent, "pw_gid") if urq else None
        if want is not None:
            ok = bool(who["gid"]) and who["gid"][-1][1].name in ("os.setresgid", "os.setgid", "os.setregid") and all(_same(p, a, want) for a in _args(who["gid"][-1][1]))
            ctx.check(ok, "child-group", "run|group", "a command is executed without switching to exactly the requested group (or the primary group of the requested user)", p, loc)
            if who["uid"] and who["gid"]:
                ctx.check(who["gid"][-1][0] < who["uid"][0][0], "child-group", "run|order", "the group is changed after the privileges were given up, so it fails for every unprivileged user", p, loc)
        else:
            ctx.check(not who["gid"], "child-group", "run|nobody", "a command is executed with another group although none was requested", p, loc)
        if urq:
            isself = _is_self(p, mk("attr", uent, "pw_uid"))
            before = [k for k, e in who["grp"] if not who["uid"] or k < who["uid"][0][0]]
            ctx.check(bool(before) or isself, "child-groups", "run", "a command requested for another user keeps the supplementary groups of the dispatcher", p, loc)
            for k, e in who["grp"]:
                a = _args(e)
                if e.name == "os.initgroups" and len(a) == 2:
                    nm = _num(p, a[0])
                    names = {mk("attr", uent, "pw_name"), mk("attr", mk("pwuid", mk("attr", uent, "pw_uid")), "pw_name")}
                    ctx.check(nm in names or nm is U and uent.op == "pwnam", "child-groups", "run|name", f"the supplementary groups of {show(nm)} are given to the command", p, e.loc)
        # umask
        if p.facts.isnone(UM) is not True:
            want = mk("call", "int", UM, K(8))
            got = _num(p, _args(who["umask"][-1][1])[0]) if who["umask"] else None
            ctx.check(got is not None and _is_oct(got, UM), "child-umask", "run", f"a command requested with a umask runs with {show(got) if got is not None else 'the one of the dispatcher'}", p, loc)
        elif who["umask"]:
            got = _num(p, _args(who["umask"][-1][1])[0])
            ctx.check(not (isinstance(got, K) and isinstance(got.v, int)) or got.v & 0o22 == 0o22, "child-umask", "run|default", f"a command without a requested umask runs with the permissive mask {show(got)}", p, loc)
        # cwd
        if p.facts.isnone(CW) is not True:
            asked = {fn: any(isinstance(k, S) and v is True and any(isinstance(x, S) and x.op in ("call", "res") and x.a[0] == fn for x in subterms(k)) and CW in list(subterms(k)) for k, v in p.facts.d.items())
                     for fn in ("os.path.isdir", "os.path.exists", "os.path.lexists")}
            if not asked["os.path.isdir"] and (asked["os.path.exists"] or asked["os.path.lexists"]) and not ext_events(p, "os.stat"):
                ctx.viol("validate-first", "run|cwd", "a command is executed in a working directory which isn't known to be a directory", p, loc)
            ok = bool(who["cwd"]) and all(_same(p, _args(e)[0], CW) for _, e in who["cwd"])
            ctx.check(ok, "child-cwd", "run", "a command is executed in another directory than the requested one", p, loc)
        else:
            ctx.check(not who["cwd"] or not isinstance(_num(p, _args(who["cwd"][-1][1])[0]), K), "child-cwd", "run|none", "a command is executed in a directory nobody requested", p, loc)
    if not n:
        ctx.undec("run: no command executed on any path")


def _not_dir(p, t):
    for fn in ("os.path.isdir", "os.path.exists"):
        if any(isinstance(k, S) and fn in show(k) and t in list(subterms(k)) and v is False for k, v in p.facts.d.items()):
            return True
    return False


def _id_own(i, ctx):
    """The supplementary groups can't be changed without privileges; changing to the own uid and gid is always possible."""
    def prep(cfg):
        def deny(ii, a, k, n):
            ii.emit("ext", "denied", {}, n)
            raise AbsRaise(ii.make_exc("PermissionError", K("Operation not permitted"), errno=K(1), strerror=K("Operation not permitted")), n, ii.loc(n))
        for f in ("initgroups", "setgroups", "chroot"):
            cfg.ext["os." + f] = deny
    n = 0
    for p in api_paths(i, ctx, "run", fixed={"group": NONE, "umask": NONE, "cwd": NONE, "input": NONE}, prep=prep):
        if any(e.kind == "child" and e.name == "exec" for e in p.events):
            n += 1
            ctx.check(True, "own-user", "run", "", p)
            continue
        at = [e for e in p.events if e.name == "denied"]
        if not at or p.facts.isnone(A("user")) is True:
            continue
        uent = entry_for(p, "pwnam", "pwuid", A("user"))
        want = uent is not None and mk("attr", uent, "pw_uid")
        # paths on which the dispatcher is known to be privileged, or the user to be another one
        other = False
        for k, v in p.facts.d.items():
            if isinstance(k, S) and "os.get" in show(k) and not (k.op == "eq" and want in k.a and v is True):
                other = True
        if want and not other:
            ctx.viol("own-user", "run", "a command for the dispatcher's own user fails unless the dispatcher is privileged", p, at[0].loc)
    if not n:
        ctx.undec("own-user: no executed command")


def _is_self(p, uid):
    """The uid is known to be the dispatcher's own on this path."""
    for k, v in p.facts.d.items():
        if isinstance(k, S) and k.op == "eq" and v is True and uid in k.a and any("os.get" in show(x) and "uid" in show(x) for x in k.a if x is not uid):
            return True
    return False


def _is_oct(t, src):
    return isinstance(t, S) and t.op == "call" and t.a[0] in ("int", "builtins.int") and t.a[1] is src and (K(8) in t.a or any(isinstance(x, S) and x.op == "kw" and x.a[1] is K(8) for x in t.a[2:]))


def _id_upload(i, ctx):
    F, MO, O, G = A("file"), A("mode"), A("owner"), A("group")
    n = 0
    for p in api_paths(i, ctx, "upload"):
        muts = _mutations(p)
        if p.kind == "raise" and "builtins.ValueError" in p.exc_names:
            ctx.check(not muts, "validate-first", "upload", "an upload is rejected after something was already written or changed", p, muts[0].loc if muts else None)
            why = _unresolved(p, "owner", "pwnam", "pwuid") or _unresolved(p, "group", "grnam", "grgid") or p.facts.known(mk("isint", MO, K(8))) is False
            ctx.check(why, "valid-accepted", "upload", "an upload with resolvable parameters is rejected", p)
            continue
        if p.kind == "raise":
            ctx.viol("valid-accepted", "upload|fails", f"an upload with valid parameters fails with {p.excname}, without a failing system call", p)
        if p.kind != "return":
            continue
        n += 1
        loc = muts[0].loc if muts else None
        orq, grq, mrq = (p.facts.isnone(x) is not True for x in (O, G, MO))
        oent = entry_for(p, "pwnam", "pwuid", O) if orq else None
        gent = entry_for(p, "grnam", "grgid", G) if grq else None
        if orq and oent is None or grq and gent is None:
            ctx.viol("upload-owner", "unresolved", "an upload succeeds although the requested owner or group wasn't resolved", p, loc)
            continue
        chown = [(k, e) for k, e in enumerate(muts) if e.name in ("os.chown", "os.lchown", "os.fchown")]
        chmod = [(k, e) for k, e in enumerate(muts) if e.name in ("os.chmod", "os.fchmod")]
        wr = [k for k, e in enumerate(muts) if e.name == "builtins.open"]
        uid = gid = K(-1)
        for _, e in chown:
            a = _args(e)
            if len(a) < 3:
                continue
            u, g = _num(p, a[1]), _num(p, a[2])
            uid = u if not (isinstance(u, K) and u.v == -1) else uid
            gid = g if not (isinstance(g, K) and g.v == -1) else gid
            ctx.check(_about(p, a[0], F, muts), "upload-owner", "file", f"the ownership of {show(_num(p, a[0]))} is changed", p, e.loc)
        if orq:
            w = mk("attr", oent, "pw_uid")
            ctx.check(_same(p, uid, w) or _both_zero(p, uid, w), "upload-owner", "owner", f"an upload with a requested owner sets the uid to {show(uid)}", p, loc)
        if grq:
            w = mk("attr", gent, "gr_gid")
            ctx.check(_same(p, gid, w) or _both_zero(p, gid, w), "upload-owner", "group", f"an upload with a requested group sets the gid to {show(gid)}", p, loc)
        elif orq:
            w = mk("attr", oent, "pw_gid")
            ctx.check(_same(p, gid, w) or _both_zero(p, gid, w) or gid is K(-1), "upload-owner", "group|primary", f"an upload with a requested owner but no group sets the gid to {show(gid)}", p, loc)
        if not orq and not grq:
            ctx.check(all(isinstance(_num(p, a), K) and _num(p, a).v in (-1, 0) for _, e in chown for a in _args(e)[1:3]), "upload-owner", "none", "an upload without owner and group changes the ownership", p, loc)
        if mrq:
            ok = bool(chmod) and _is_oct(_num(p, _args(chmod[-1][1])[1]), MO) and _about(p, _args(chmod[-1][1])[0], F, muts)
            ctx.check(ok, "upload-mode", "mode", "an upload with a requested mode doesn't end with exactly that mode", p, loc)
            if ok and chown:
                ctx.check(chmod[-1][0] > chown[-1][0], "upload-mode", "order", "the ownership is changed after the mode, which clears setuid and setgid bits", p, chown[-1][1].loc)
            if ok and wr:
                ctx.check(chmod[-1][0] > wr[0], "upload-mode", "exists", "the mode is set before the file exists", p, chmod[-1][1].loc)
        else:
            ctx.check(not chmod, "upload-mode", "none", "an upload without a requested mode changes the mode", p, loc)
    if not n:
        ctx.undec("upload: no completed path")


def _both_zero(p, a, b):
    a, b = _num(p, a), _num(p, b)
    return (a is K(0) or _zero(p, a)) and _zero(p, b)


def _about(p, t, F, muts):
    t = _num(p, t)
    if _same(p, t, F):
        return True
    opened = [e.res for e in muts if e.name in ("builtins.open", "os.open") and e.res is not None]
    return isinstance(t, S) and any(r in list(subterms(t)) for r in opened)


def _id_umask(i, ctx):
    c = packet_classes(i).get("PacketUpload")
    if c is None:
        return

    def entry(ii):
        M.set_globals(ii)
        ii.notes["st"] = run_server(ii, [sample(ii, c, {"mode": NONE, "owner": NONE, "group": NONE})])
        return NONE
    for p in ctx.take(explore(i, server_config(i), entry, 200), "dispatcher"):
        mask = None
        for e in p.events:
            if e.kind == "ext" and e.name == "os.umask":
                mask = freeze(_args(e)[0])
            elif e.kind == "ext" and e.name == "builtins.open" and isinstance(e.arg("mode"), K) and any(x in e.arg("mode").v for x in "wax"):
                if mask is None or isinstance(mask, K):
                    ctx.check(mask is not None and mask.v & 0o77 == 0o77, "private", "upload", f"a file is created under the umask {oct(mask.v) if mask is not None else 'inherited from the login'}: its content is readable by others until the permissions are set", p, e.loc)


# --------------------------------------------------------------------------
# C21: absence is only reported for what is absent

ABSENT = ("ENOENT",)
OTHER_ERRORS = ("EACCES", "EIO", "ELOOP", "ENOTDIR")


def absence(i, ctx):
    ctx.rule("stat", "stat returns None exactly if the path doesn't exist; any other failure is raised.")
    ctx.rule("download", "download_or returns the default exactly if the file doesn't exist; any other failure is raised. download never returns without the content.")
    ctx.rule("query", "query_user and query_group return the default exactly if no account of that name or number exists; incomplete accounts (no password entry, no group entry for the primary group) are still found.")
    ctx.rule("resolve", "Resolving raises ValueError exactly if no account of that name or number exists.")
    ctx.rule("remote-error", "A remote operating system error arrives with its error number.")
    ctx.rule("broken", "A connection that breaks before the answer is an error, never an absent object.")
    OTHER = OTHER_ERRORS + tuple(x for x in errno_names(i) if x not in OTHER_ERRORS + ABSENT + ("EINVAL",))
    one = lambda names: [(lambda nm: (lambda ii, mkx=oserror(nm): (ii.notes.__setitem__("$oserr", nm), mkx(ii))[1]))(nm) for nm in names]
    n = 0
    for p in api_paths(i, ctx, "stat", natural={"os.stat": one(ABSENT + OTHER), "builtins.open": one(OTHER)}):
        err = p.notes.get("$oserr")
        n += 1
        if err is None:
            ctx.check(p.kind == "return" and isinstance(p.value, Inst), "stat", "present", "an existing node is not reported" if p.kind == "return" else f"stat of an existing node raises {p.excname}", p)
        elif err in ABSENT:
            ctx.check(p.kind == "return" and p.value is NONE, "stat", "absent", "a missing node is not reported as missing", p)
        else:
            ctx.check(p.kind == "raise", "stat", err, f"a node that cannot be examined ({err}) is reported as {'missing' if p.value is NONE else 'present'}", p)
            _errno_kept(ctx, p, err, "stat")
    for m in ("download", "download_or"):
        for p in api_paths(i, ctx, m, natural={"builtins.open": one(ABSENT + OTHER), "meth:read": one(("EIO",))}):
            err = p.notes.get("$oserr")
            v = val(p, p.value) if p.kind == "return" else None
            n += 1
            if err is None:
                ctx.check(p.kind == "return" and v is not val(p, A("default")) and v is not NONE, "download", m + "|present", f"an existing file is reported as missing by {m}" if p.kind == "return" else f"{m} of a readable file raises {p.excname}", p)
            elif err in ABSENT:
                if m == "download_or":
                    ctx.check(p.kind == "return" and v is val(p, A("default")), "download", m + "|absent", "the default is not returned for a missing file", p)
                else:
                    ctx.check(p.kind == "raise", "download", m + "|absent", "a missing file is downloaded", p)
            else:
                ctx.check(p.kind == "raise", "download", f"{m}|{err}", f"a file that cannot be read ({err}) is {'treated as missing' if v is val(p, A('default')) else 'downloaded'} by {m}", p)
                _errno_kept(ctx, p, err, m)
    for m, key, nam, uid in (("query_user", "user", "pwnam", "pwuid"), ("query_group", "group", "grnam", "grgid"), ("resolve_user", "user", "pwnam", "pwuid"), ("resolve_group", "group", "grnam", "grgid"), ("home_dir", "user", "pwnam", "pwuid")):
        for p in api_paths(i, ctx, m):
            if p.facts.isnone(A(key)) is True:
                continue
            ent = entry_for(p, nam, uid, A(key))
            q = m.startswith("query")
            rid = "query" if q else "resolve"
            n += 1
            if ent is not None:
                found = p.kind == "return" and (isinstance(p.value, Inst) if q else True)
                ctx.check(found, rid, m + "|present", f"{m} reports an existing account as missing ({p.excname if p.kind == 'raise' else show(val(p, p.value))})", p)
            elif _unresolved(p, key, nam, uid):
                if q:
                    ctx.check(p.kind == "return" and val(p, p.value) is val(p, A("default")), rid, m + "|absent", "the default is not returned for a missing account", p)
                else:
                    ctx.check(p.kind == "raise" and "builtins.ValueError" in p.exc_names, rid, m + "|absent", f"{m} of a missing account {'succeeds' if p.kind == 'return' else 'raises ' + p.excname}", p)
            elif p.kind == "return" and q and not isinstance(p.value, Inst):
                ctx.viol(rid, m + "|unasked", f"{m} reports an account as missing without looking it up by name and by number", p)
            elif p.kind == "raise":
                ctx.viol(rid, m + "|fails", f"{m} fails ({p.excname}) without having found out that the account doesn't exist", p)
    for p in api_paths(i, ctx, "query_user", faults=lambda name: [oserror("EACCES")] if name == "spwd.getspnam" else []):
        if p.notes.get("$fault") and p.kind == "return" and not isinstance(p.value, Inst):
            ctx.viol("query", "query_user|shadow", "a user whose password entry cannot be read is reported as missing", p)
        elif p.notes.get("$fault"):
            ctx.ok("query")
    # a connection that breaks, or a lookup that fails, says nothing about existence
    for m in ("stat", "download_or", "download", "query_user", "query_group", "resolve_user", "resolve_group", "getenv", "home_dir"):
        for p in api_paths(i, ctx, m, breaks=True):
            if p.notes.get("$broken"):
                ctx.check(p.kind == "raise", "broken", m, f"{m} returns {show(val(p, p.value)) if p.kind == 'return' else ''} although the connection broke before the answer", p)
    for m, fns in (("query_user", ("pwd.getpwnam", "pwd.getpwuid")), ("query_group", ("grp.getgrnam", "grp.getgrgid")), ("resolve_user", ("pwd.getpwnam",)), ("resolve_group", ("grp.getgrnam",))):
        for p in api_paths(i, ctx, m, faults=lambda name: [oserror("EIO")] if name in fns else []):
            if p.notes.get("$fault"):
                ctx.check(p.kind == "raise" and "builtins.ValueError" not in p.exc_names, "query" if m.startswith("query") else "resolve", m + "|failure", f"{m} reports an account as missing although the lookup failed", p)
    error_reply(i, ctx, "remote-error")
    if not n:
        ctx.undec("no path")


def _errno_kept(ctx, p, err, m):
    if p.kind == "raise" and isinstance(p.exc, Inst) and p.excname.endswith("RemoteOSError"):
        ctx.check(val(p, p.exc.attrs.get("errno")) is K(getattr(_errno, err)), "remote-error", m, f"the error number of a failed {m} is lost", p)
