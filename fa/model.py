"""
The fora-specific environment model: what an operation sees of the outside
world (public API of the connection, script defaults, command line arguments).
Everything is anchored at public names only.
"""
from __future__ import annotations
import ast

from .terms import (K, S, NONE, TRUE, FALSE, B, mk, cat, typeof, TYPES, Ty, T_ANY, T_STR, T_INT, T_BOOL, T_BYTES,
                    show, Facts, Infeasible, truthy_atom, eq_atom, none_atom)
from .objects import (ListObj, SetObj, DictObj, TupleV, ModuleObj, ClassObj, Inst, FnV, BoundV, PyFn, Ext, CtxMgr,
                      freeze, cls_name)
from .effects import Cmd, read_only
from .interp import Program, Interp, Config, explore, Unsupported, AbsRaise

REPO_SRC = "/repo/src"


class AnchorMissing(Exception):
    """A public name a rule is anchored at does not exist any more."""


_INTERP = None


def get_interp(src=None):
    global _INTERP
    if _INTERP is None or src is not None:
        p = Program(src or REPO_SRC)
        i = Interp(p)
        i.load_all()
        _INTERP = i
    return _INTERP


def module(i, name):
    m = i.modules.get(name)
    if m is None:
        raise AnchorMissing(f"module {name}")
    return m


def lookup(i, dotted):
    """Value of a public dotted name (module attribute or class attribute)."""
    parts = dotted.split(".")
    for j in range(len(parts), 0, -1):
        mn = ".".join(parts[:j])
        if mn in i.modules:
            v = i.modules[mn]
            for p in parts[j:]:
                if isinstance(v, ModuleObj):
                    if p not in v.vars:
                        raise AnchorMissing(dotted)
                    v = v.vars[p]
                elif isinstance(v, ClassObj):
                    _, f = v.find(p)
                    if f is None:
                        raise AnchorMissing(dotted)
                    v = f
                else:
                    raise AnchorMissing(dotted)
            if isinstance(v, S) and v.op == "cyclic":
                v = i.resolve_cyclic(v)
            return v
    raise AnchorMissing(dotted)


def sym(name, ty=None):
    t = mk("param", name)
    if ty is not None:
        TYPES[t] = ty
    return t


def inst_ty(qual, nullable=False):
    return Ty("inst", nullable, qual)


# --------------------------------------------------------------------------
# Events of the connection API


def remote(i, name, bound, node, res=None):
    a = {k: v for k, v in bound.items() if k != "self"}
    return i.emit("remote", name, a, node, res=res)


def memo_read(ii, name, bound, mkres):
    """The same read without an intervening modification yields the same value (nobody else changes the remote system)."""
    memo = ii.notes.setdefault("$memo", {})
    if name == "upload" or (name == "run" and not read_only(Cmd(freeze(bound.get("command", NONE))))):
        memo.clear()
        return mkres(ii, bound)
    key = (name,) + tuple((k, freeze(v)) for k, v in sorted(bound.items()) if k != "self")
    if key not in memo:
        memo[key] = mkres(ii, bound)
    return memo[key]


def conn_intercepts(cfg, i, fail=(), prefix="fora.connection.Connection."):
    """Primitive events for the public methods of Connection."""
    def prim(name, mkres):
        def h(ii, bound, node, fn):
            r = memo_read(ii, name, bound, mkres)
            remote(ii, name, bound, node, r)
            if name in fail:
                ii.maybe_raise("remote:" + name, node)
            if name == "run":
                chk = bound.get("check", TRUE)
                if "run" in fail and chk is not FALSE:
                    if ii.choose(2, "run fails") == 1:
                        if not (isinstance(chk, S) and not ii.decide(truthy_atom(chk))):
                            cmd = bound.get("command", NONE)
                            e = ii.make_exc("subprocess.CalledProcessError", K("cmd"), returncode=mk("attr", r, "returncode"), cmd=cmd,
                                            output=mk("attr", r, "stdout"), stdout=mk("attr", r, "stdout"), stderr=mk("attr", r, "stderr"))
                            ii.emit("raised", "remote:run", {"exc": mk("class", "subprocess.CalledProcessError"), "of": r}, node)
                            raise AbsRaise(e, node, ii.loc(node))
                if chk is TRUE:
                    rc = mk("attr", r, "returncode")
                    TYPES.setdefault(rc, T_INT)
                    ii.facts.assume(mk("eq", rc, K(0)), True)
            return r
        cfg.intercepts[prefix + name] = h
    C = "fora.connectors.connector."
    prim("run", lambda ii, b: ii.fresh("run", ty=inst_ty(C + "CompletedRemoteCommand")))
    prim("stat", lambda ii, b: ii.fresh("stat", ty=inst_ty(C + "StatResult", True)))
    prim("upload", lambda ii, b: NONE)
    prim("download", lambda ii, b: ii.fresh("download", ty=T_BYTES))
    prim("download_or", lambda ii, b: ii.fresh("download_or", ty=Ty("bytes", True)))
    prim("query_user", lambda ii, b: ii.fresh("query_user", ty=inst_ty(C + "UserEntry", True)))
    prim("query_group", lambda ii, b: ii.fresh("query_group", ty=inst_ty(C + "GroupEntry", True)))
    prim("resolve_user", lambda ii, b: ii.fresh("resolve_user", ty=T_STR))
    prim("resolve_group", lambda ii, b: ii.fresh("resolve_group", ty=T_STR))
    prim("home_dir", lambda ii, b: ii.fresh("home_dir", ty=T_STR))
    prim("getenv", lambda ii, b: ii.fresh("getenv", ty=Ty("str", True)))


SETTING_FIELDS = ("as_user", "as_group", "owner", "group", "file_mode", "dir_mode", "umask", "cwd")


def resolved(field, arg):
    t = mk("resolved", field, arg)
    TYPES.setdefault(t, Ty("str", field in ("as_user", "as_group", "cwd")))
    return t


def defaults_intercept(cfg):
    def h(i, bound, node, fn):
        args = {f: freeze(bound.get(f, NONE)) for f in SETTING_FIELDS}

        def run(ii, body, nd):
            ii.emit("defaults", "enter", args, node)
            ii.maybe_raise("defaults", node)
            cls = ii.classes.get("fora.remote_settings.ResolvedRemoteSettings") or Ext("types.SimpleNamespace")
            v = Inst(cls, {f: resolved(f, a) for f, a in args.items()}, ii.epoch)
            ii._with_protocol(v, body, lambda a: (ii.emit("defaults", "exit", args, node), FALSE)[1])
        return CtxMgr("model", data=run)
    cfg.intercepts["fora.types.ScriptWrapper.defaults"] = h


def log_intercepts(cfg, i, names=None):
    m = i.modules.get("fora.logger")
    if m is None:
        return

    def mkh(q):
        def h(ii, bound, node, fn):
            if q.endswith((".col",)):
                return K("")
            ii.emit("log", q, bound, node, raw=bound)
            return NONE
        return h
    for k, v in m.vars.items():
        if isinstance(v, FnV) and v.qualname == "fora.logger." + k and not v.ctxmgr and k not in ("indent", "use_color"):
            if names is None or k in names:
                cfg.intercepts[v.qualname] = mkh(v.qualname)

    def ph(ii, bound, node, fn):
        ii.emit("log", "print_process_error", bound, node)
        return NONE
    cfg.intercepts["fora.utils.print_process_error"] = ph


ARGS_FIELDS = ("dry", "diff", "debug", "no_color", "changes", "verbose")


def set_globals(i, script=True, host=True, **over):
    """Fill the module globals of the package with symbolic values for one path."""
    m = i.modules["fora"]
    i.touch(m)
    attrs = {"$ns": TRUE}
    src = i.modules.get("fora.main")
    names = set(ARGS_FIELDS)
    if src is not None:
        for n in ast.walk(src.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
                for kw in n.keywords:
                    if kw.arg == "dest" and isinstance(kw.value, ast.Constant):
                        names.add(kw.value.value)
    for n in sorted(names):
        attrs[n] = sym("args." + n, T_BOOL)
    attrs["hosts"] = sym("args.hosts", Ty("str", True))
    attrs["debug"] = FALSE
    attrs["verbose"] = sym("args.verbose", T_INT)
    attrs.update(over.get("args", {}))
    m.vars["args"] = Inst(Ext("types.SimpleNamespace"), attrs, i.epoch)
    m.vars["inventory"] = sym("inventory", inst_ty("fora.inventory_wrapper.InventoryWrapper"))
    m.vars["host"] = sym("host", inst_ty("fora.types.HostWrapper")) if host else NONE
    m.vars["script"] = sym("script", inst_ty("fora.types.ScriptWrapper")) if script else NONE


def active_host(cfg):
    def h(i, bound, node, fn):
        i.emit("check", "host_active", {}, node)
        return NONE
    cfg.intercepts["fora.utils.check_host_active"] = h


# --------------------------------------------------------------------------
# Operations


OPERATIONS = {
    "files.directory": "fora.operations.files.directory",
    "files.file": "fora.operations.files.file",
    "files.link": "fora.operations.files.link",
    "files.upload_content": "fora.operations.files.upload_content",
    "files.upload": "fora.operations.files.upload",
    "files.upload_dir": "fora.operations.files.upload_dir",
    "files.template_content": "fora.operations.files.template_content",
    "files.template": "fora.operations.files.template",
    "files.line": "fora.operations.files.line",
    "system.user": "fora.operations.system.user",
    "system.group": "fora.operations.system.group",
    "system.package": "fora.operations.system.package",
    "system.service": "fora.operations.system.service",
    "systemd.daemon_reload": "fora.operations.systemd.daemon_reload",
    "systemd.service": "fora.operations.systemd.service",
    "git.repo": "fora.operations.git.repo",
    "apt.package": "fora.operations.apt.package",
    "pacman.package": "fora.operations.pacman.package",
    "portage.package": "fora.operations.portage.package",
}


REQUIRED_OPERATIONS = tuple(k for k in OPERATIONS if k not in ("system.package", "system.service"))


def discover_operations(i):
    """All functions below fora.operations wrapped by the operation decorator, plus the public dispatch functions."""
    out = {}
    for mn, m in i.modules.items():
        if not mn.startswith("fora.operations.") or mn in ("fora.operations.api", "fora.operations.utils"):
            continue
        for k, v in m.vars.items():
            if isinstance(v, FnV) and not k.startswith("_"):
                base = unwrap(v)
                if base.module is m and base.name == k:
                    if v is not base or any(a.arg == "op" for a in base.node.args.args):
                        out[mn[len("fora.operations."):] + "." + k] = mn + "." + k
    return out


def unwrap(f):
    n = 0
    while isinstance(f, FnV) and isinstance(f.wrapped, FnV) and n < 5:
        f = f.wrapped
        n += 1
    return f


LIST_PARAMS = {
    "packages": lambda nm: [("two", lambda i: ListObj([sym(nm + "0", T_STR), sym(nm + "1", T_STR)], i.epoch)),
                            ("dup", lambda i: ListObj([sym(nm + "0", T_STR), sym(nm + "0", T_STR)], i.epoch))],
    "groups": lambda nm: [("none", lambda i: NONE), ("empty", lambda i: ListObj([], i.epoch)),
                          ("two", lambda i: ListObj([sym(nm + "0", T_STR), sym(nm + "1", T_STR)], i.epoch))],
    "opts": lambda nm: [("none", lambda i: NONE), ("two", lambda i: ListObj([sym(nm + "0", T_STR), sym(nm + "1", T_STR)], i.epoch))],
}


def op_args(i, f, fixed=None, lists=None):
    """Symbolic keyword arguments for every public parameter of f."""
    base = unwrap(f)
    kw = {}
    fixed = fixed or {}
    a = base.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        nm = x.arg
        if nm == "op":
            continue
        if nm in fixed:
            v = fixed[nm]
            kw[nm] = v(i) if callable(v) else v
            continue
        ty = i.ty_from_ann(x.annotation, base.module) if x.annotation is not None else T_ANY
        if ty.kind == "list" and (lists or LIST_PARAMS).get(nm):
            alts = (lists or LIST_PARAMS)[nm](nm)
            c = i.choose(len(alts), "shape:" + nm)
            kw[nm] = alts[c][1](i)
            i.notes[nm] = alts[c][0]
            continue
        kw[nm] = sym(nm, ty)
    return kw


def nested_ops(cfg, only=None):
    """Calls of other decorated operations become 'nestedop' events (compositional treatment of composite operations)."""
    def h(i, fn, args, kwargs, n):
        base = unwrap(fn)
        if not base.module.name.startswith("fora.operations.") or not any(x.arg == "op" for x in base.node.args.args):
            return NotImplemented
        kw = {k: v for k, v in kwargs.items()}
        b = i.bind_args(base, args, kw, n)
        b.pop("op", None)
        r = i.fresh("nestedop", ty=inst_ty("fora.operations.api.OperationResult"))
        i.emit("nestedop", base.qualname, b, n, res=r)
        i.maybe_raise("nestedop", n)
        return r
    cfg.op_hook = h


def host_vars_opaque(cfg):
    def h(i, bound, node, fn):
        t = mk("hostvars")
        TYPES[t] = Ty("dict")
        return DictObj([], i.epoch, t)
    cfg.intercepts["fora.types.HostWrapper.vars_hierarchical"] = h


def ops_config(i, fail=(), distinct=()):
    cfg = Config()
    nested_ops(cfg)
    host_vars_opaque(cfg)
    conn_intercepts(cfg, i, fail)
    defaults_intercept(cfg)
    log_intercepts(cfg, i)
    active_host(cfg)
    cfg.distinct = {sym(n, T_STR) for n in ("packages0", "packages1", "groups0", "groups1", "opts0", "opts1")} | set(distinct)
    cfg.ext_pure = {"os.umask"} & set()
    local_fs(cfg)
    return cfg


def local_fs(cfg):
    """Concrete small shapes for os.walk (one directory, one file per level)."""
    def walk(i, a, k, n):
        root = freeze(a[0])
        d, f = mk("walkdir", root), mk("walkfile", root)
        TYPES[d] = TYPES[f] = T_STR
        sub = mk("call", "os.path.join", root, d)
        f2 = mk("walkfile", sub)
        TYPES[f2] = T_STR
        return ListObj([TupleV([root, ListObj([d], i.epoch), ListObj([f], i.epoch)]),
                        TupleV([sub, ListObj([], i.epoch), ListObj([f2], i.epoch)])], i.epoch)
    cfg.ext["os.walk"] = walk


def op_entry(qual, fixed=None, lists=None, script=True, **over):
    def entry(i):
        set_globals(i, script=script, **over)
        f = lookup(i, qual)
        kw = op_args(i, f, fixed, lists)
        i.last_kw = kw
        return i.call(f, [], kw, None)
    return entry


def exception_names(i, modules=None):
    """Exception classes (builtin or of the package) which the source distinguishes: named in handlers and in isinstance/issubclass tests."""
    import builtins
    out = []

    def add(n, mod):
        if isinstance(n, ast.Tuple):
            for x in n.elts:
                add(x, mod)
            return
        d = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
        if d is None or d in out:
            return
        o = getattr(builtins, d, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            o = o.__name__
            if o not in out:
                out.append(o)
    for mod, t in i.prog.trees.items():
        if modules and mod not in modules:
            continue
        for x in ast.walk(t):
            if isinstance(x, ast.ExceptHandler) and x.type is not None:
                add(x.type, mod)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "issubclass") and len(x.args) == 2:
                add(x.args[1], mod)
            elif isinstance(x, ast.Compare):
                for c in x.comparators:
                    add(c, mod)
    return [x for x in out if x not in ("Exception", "BaseException")] + ["Exception"]


def some_exception(i, name, msg=None):
    """An exception instance of a builtin class, with the attributes instances of it have."""
    import builtins
    o = getattr(builtins, name.split(".")[-1], None)
    kw = {}
    if isinstance(o, type) and issubclass(o, OSError):
        kw = {"errno": NONE, "strerror": NONE, "filename": NONE}
    if name == "SystemExit":
        kw = {"code": K(3)}
    if name.endswith("CalledProcessError"):
        kw = {"returncode": K(1), "cmd": K("x"), "stdout": NONE, "stderr": NONE, "output": NONE}
    return i.make_exc(name, msg if msg is not None else K("injected"), **kw)
