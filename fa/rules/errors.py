"""C40: what a user is told about a failure."""
from __future__ import annotations

from ..terms import K, S, NONE, TRUE, FALSE, mk, show, subterms, TYPES, Ty, T_STR, T_INT, T_ANY
from ..objects import Inst, ListObj, DictObj, TupleV, PyFn, Ext, freeze, cls_name
from ..interp import explore, Config, AbsRaise, Unsupported
from .. import model as M

U = "fora.utils."
STDERR = "sys.stderr"


def _printed(e):
    return e.kind == "print" or e.kind == "ext" and e.name.startswith(("sys.stderr.", "sys.stdout."))


def _to_stderr(e):
    if e.kind == "ext":
        return e.name.startswith("sys.stderr.")
    f = e.args.get("file")
    return isinstance(f, Ext) and f.name == STDERR or isinstance(f, S) and STDERR in show(f)


def _texts(e):
    return [v for k, v in e.args.items() if str(k).isdigit()]


def _parts(e):
    """Constant text of a print, and the terms in it."""
    const, terms = "", set()
    for v in _texts(e):
        v = freeze(v)
        for x in subterms(v):
            if isinstance(x, K) and isinstance(x.v, (str, bytes)):
                const += "\0" + (x.v if isinstance(x.v, str) else x.v.decode("latin-1"))
            elif isinstance(x, K):
                const += "\0" + str(x.v)
            terms.add(x)
    return const, terms


def _cfg(i):
    cfg = Config()
    cfg.ext["shutil.get_terminal_size"] = lambda ii, a, k, n: Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "columns": K(80), "lines": K(24)}, ii.epoch)
    return cfg


def failures(i, ctx):
    ctx.rule("fatal", "A fatal error prints its message and location to standard error and ends the program with a nonzero status.")
    ctx.rule("command", "A failing command is reported on standard error with its command line, exit status and everything it printed, whatever bytes that is.")
    ctx.rule("once", "This report is printed once for each failure, however many operations and scripts the error passes through.")
    ctx.rule("same", "Reporting a failure doesn't replace it by another error.")
    ctx.rule("trace", "An error carries the scripts that were running when it was raised, and the report of an unhandled error names each call of a script by another one, and shows the error itself.")
    _fatal(i, ctx)
    _command(i, ctx)
    _hook(i, ctx)


def _fatal(i, ctx):
    die = M.lookup(i, U + "die_error")
    ctx.functions.add(U + "die_error")
    MSG, LOC = M.sym("message", T_STR), M.sym("location", Ty("str", True))
    for where in (False, True):
        def entry(ii):
            M.set_globals(ii)
            return ii.call(die, [MSG], {"loc": LOC} if where else {}, None)
        for p in ctx.take(explore(i, _cfg(i), entry, 100), "die_error"):
            ctx.check(p.kind == "raise" and p.excname.endswith("SystemExit") or any(e.kind == "ext" and e.name in ("sys.exit", "os._exit") for e in p.events), "fatal", "ends", "a fatal error doesn't end the program", p)
            for e in p.events:
                if e.kind == "ext" and e.name in ("sys.exit", "os._exit"):
                    st = freeze(e.args.get("0", NONE))
                    ctx.check(not (isinstance(st, K) and st.v in (0, None, False)), "fatal", "status", f"a fatal error ends the program with the status {show(st)}", p, e.loc)
            pr = [e for e in p.events if _printed(e)]
            ctx.check(any(_to_stderr(e) and MSG in _parts(e)[1] for e in pr), "fatal", "message", "a fatal error's message isn't printed to standard error", p)
            if where and p.facts.isnone(LOC) is not True:
                ctx.check(any(_to_stderr(e) and LOC in _parts(e)[1] for e in pr), "fatal", "location", "a fatal error's location isn't printed", p)


OUTPUT = (("text", b"OUTMARK", b"ERRMARK"), ("any bytes", b"\xff\x00OUTMARK\xfe", b"\x80ERRMARK"), ("nothing captured", None, None), ("empty", b"", b""), ("only standard output", b"OUTMARK", b""), ("only standard error", b"", b"ERRMARK"))
# how the error travels: o = operation, s = script; outermost first
ROUTES = ("o", "s", "so", "soo", "sso", "ss", "ssso", "sosoo"[:3] + "o")


def _command(i, ctx):
    operation = M.lookup(i, "fora.operations.api.operation")
    run_script = M.lookup(i, "fora.loader.run_script")
    ctx.functions |= {"fora.operations.api.operation", "fora.loader.run_script", U + "print_process_error"}
    from .core import connector_model, make_world, _cwd_model
    for route in ROUTES:
        for lab, out, err in OUTPUT if route in ("o", "s", "sso") else OUTPUT[:1]:
            for times in (1, 2) if route in ("s", "so") and out else (1,):
                def entry(ii):
                    host, conn, script = make_world(ii)
                    fm = ii.modules["fora"]
                    fm.vars["args"].attrs["debug"] = FALSE

                    def fail(n):
                        j = ii.notes["count"] = ii.notes.get("count", 0) + 1
                        c = lambda b: NONE if b is None else K(b)
                        e = ii.make_exc("subprocess.CalledProcessError", K("failed"), returncode=K(90 + j), cmd=ListObj([K("prog"), K("ARGMARK")], ii.epoch), stdout=c(out), stderr=c(err), output=c(out))
                        ii.notes.setdefault("excs", []).append(e)
                        raise AbsRaise(e, n, ii.loc(n))

                    def go(rest, n):
                        if not rest:
                            return fail(n)
                        if rest[0] == "o":
                            f = ii.call(ii.call(operation, [K("opname")], {}, None), [PyFn("inner", lambda i3, a, k, n2: go(rest[1:], n2))], {}, None)
                            return ii.call(f, [], {"name": NONE, "check": TRUE}, n)
                        ii.notes.setdefault("bodies", []).append(rest[1:])
                        return ii.call(run_script, [K("/s.py"), M.sym("frame")], {}, n)

                    def load(i3, b, n, fn):
                        pre = b.get("pre_exec", NONE)
                        mod = Inst(Ext("types.ModuleType"), {"$ns": TRUE, "__name__": K("s"), "__file__": K("/s.py")}, i3.epoch)
                        if pre is not NONE:
                            i3.call(pre, [mod], {}, n)
                        go(i3.notes["bodies"].pop(), n)
                        return mod
                    cfg.intercepts[U + "load_py_module"] = load
                    for _ in range(times):
                        try:
                            go(route, None)
                        except AbsRaise as e:
                            ii.notes.setdefault("raised", []).append(e.exc)
                    return NONE
                cfg = _cfg(i)
                connector_model(cfg, i)
                M.defaults_intercept(cfg)
                M.active_host(cfg)
                _cwd_model(cfg, None)
                what = f"a failing command ({lab}) in {' in '.join({'o': 'an operation', 's': 'a script'}[c] for c in reversed(route))}"
                n = 0
                for p in ctx.take(explore(i, cfg, entry, 600), what):
                    excs = p.notes.get("excs", [])
                    if p.kind == "raise" or len(excs) != times:
                        continue
                    n += 1
                    raised = p.notes.get("raised", [])
                    ctx.check(len(raised) == times and all(a is b for a, b in zip(raised, excs)), "same", route, f"{what} becomes {cls_name(raised[0].cls) if raised else 'no error'}", p)
                    pr = [e for e in p.events if _printed(e)]
                    for mark, b in (("OUTMARK", out), ("ERRMARK", err)):
                        if not b:
                            continue
                        hits = [e for e in pr if mark in _parts(e)[0]]
                        ctx.check(len(hits) >= times and all(_to_stderr(e) for e in hits), "command", mark, f"what {what} printed to standard {'output' if mark[0] == 'O' else 'error'} isn't shown on standard error", p)
                        ctx.check(len(hits) <= times, "once", mark, f"{what} is reported {len(hits)} times for {times} failure(s)", p)
                    if out:
                        ctx.check(any("ARGMARK" in _parts(e)[0] and _to_stderr(e) for e in pr), "command", "command line", f"{what}: the command line isn't shown", p)
                        for j in range(times):
                            ctx.check(any(str(91 + j) in _parts(e)[0] and _to_stderr(e) for e in pr), "command", "status", f"{what}: the exit status isn't shown", p)
                if not n:
                    ctx.undec(f"{what}: no completed path")


def _hook(i, ctx):
    hook = M.lookup(i, U + "print_exception")
    run_script = M.lookup(i, "fora.loader.run_script")
    ctx.functions |= {U + "print_exception", U + "script_trace"}
    from .core import connector_model, make_world, _cwd_model
    for depth in (0, 1, 2, 3):
        for dynamic in ((), (0,), (1,), (0, 2), (1, 2)):
            def entry(ii):
                host, conn, script = make_world(ii)
                ns = lambda **kw: Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, **kw}, ii.epoch)
                frames = [ns(filename=K(f"FILE{j}"), lineno=K(100 + j), function=K(f"fn{j}"), code_context=ListObj([K(f"  CODE{j}\n")], ii.epoch), index=K(0), frame=ns(f_code=ns(co_name=K(f"fn{j}")))) for j in range(depth)]
                ex = ii.notes["exc"] = M.some_exception(ii, "RuntimeError", K("ERRMARK"))

                def level(j, n):
                    if j == depth:
                        raise AbsRaise(ex, n, ii.loc(n))
                    ii.notes["at"] = j
                    return ii.call(run_script, [K("/s.py"), frames[j]], {}, n)

                def load(i3, b, n, fn):
                    j = i3.notes["at"]
                    pre = b.get("pre_exec", NONE)
                    mod = Inst(Ext("types.ModuleType"), {"$ns": TRUE, "__name__": K("s"), "__file__": K("/s.py")}, i3.epoch)
                    if pre is not NONE:
                        i3.call(pre, [mod], {}, n)
                    level(j + 1, n)
                    return mod
                cfg.intercepts[U + "load_py_module"] = load
                try:
                    level(0, None)
                except AbsRaise as e:
                    ii.notes["got"] = e.exc
                ii.notes["mark"] = len(ii.events)
                um = ii.modules["fora.utils"]
                from ..objects import SetObj
                um.vars["dynamically_loaded_modules"] = SetObj([K("dyn")], ii.epoch)
                tb, tbs = NONE, []
                for j in (2, 1, 0):
                    tb = ns(tb_next=tb, tb_frame=ns(f_locals=DictObj([(K("__name__"), K("dyn" if j in dynamic else "other"))], ii.epoch), f_globals=DictObj([], ii.epoch)), tb_lineno=K(j))
                    tbs.append(tb)
                ii.notes["tbs"] = tbs
                ii.call(hook, [Ext("builtins.RuntimeError"), ex, tb], {}, None)
                return NONE
            cfg = _cfg(i)
            for nm in ("print_exception", "print_exc", "print_tb", "format_exception", "format_tb"):
                cfg.ext["traceback." + nm] = lambda ii, a, k, n, nm=nm: (ii.notes.setdefault("shown", []).append((nm, list(a) + list(k.values()))), NONE if nm.startswith("print") else ListObj([M.sym("text", T_STR)], ii.epoch))[1]
            connector_model(cfg, i)
            M.defaults_intercept(cfg)
            M.log_intercepts(cfg, i)
            _cwd_model(cfg, None)
            for p in ctx.take(explore(i, cfg, entry, 100), "unhandled error"):
                if p.kind == "raise":
                    ctx.viol("trace", "raise", f"reporting an unhandled error raises {p.excname}", p)
                    continue
                if "mark" not in p.notes:
                    continue
                ex = p.notes["exc"]
                ctx.check(p.notes.get("got") is ex, "same", "unhandled", "an error raised in a script reaches the caller as another one", p)
                after = p.events[p.notes["mark"]:]
                calls = p.notes.get("shown", [])
                ctx.check(bool(calls), "trace", "error", "the traceback of an unhandled error isn't printed", p)
                shown = [v for _, a in calls for v in a]
                if not calls or any(nm == "print_exc" for nm, _ in calls):
                    continue
                ctx.check(any(v is ex for v in shown), "trace", "error itself", "the report of an unhandled error doesn't show the error itself", p)
                at = [2 - k for k, t in enumerate(p.notes["tbs"]) if any(v is t for v in shown)]
                ctx.check(bool(at), "trace", "where", "the report of an unhandled error doesn't show where it was raised", p)
                if at and dynamic:
                    ctx.check(min(at) <= max(dynamic), "trace", "script line", "the report of an unhandled error doesn't show the line of the script at which it was raised", p)
                text = "".join(_parts(e)[0] for e in after if _printed(e) and _to_stderr(e))
                for j in range(1, depth):
                    ctx.check(f"FILE{j}" in text, "trace", "call", f"with {depth} nested scripts, the {j + 1}. script call isn't named in the report of an unhandled error", p)
                pos = [text.find(f"FILE{j}") for j in range(1, depth)]
                ctx.check(pos == sorted(pos), "trace", "order", "the script calls are not listed in the order they were made", p)
