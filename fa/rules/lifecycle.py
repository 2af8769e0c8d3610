"""Rules over resources and activation: processes, connections, settings, templates."""
from __future__ import annotations

from ..terms import (K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT, T_BYTES, T_ANY)
from ..objects import Inst, ListObj, DictObj, TupleV, freeze, cls_name, FnV, PyFn, BoundV, ClassObj, Ext, ModuleObj
from ..interp import explore, Config, AbsRaise
from .. import model as M
from .wire import TD, wire_config, packet_classes, sample
from .core import connector_model, make_world, FIELDS, SETTING_KIND, CCTOR, _exc, _norm

# --------------------------------------------------------------------------
# C22: processes and connections are released


def _proc_config(i, faults):
    """The tunnel process and its packets; faults: names of the things that may fail."""
    from ..ext import new_stream
    cfg = wire_config(i)
    M.log_intercepts(cfg, i)

    def popen(ii, a, k, n):
        if "spawn" in faults and ii.choose(2, "spawn fails"):
            raise AbsRaise(ii.make_exc("FileNotFoundError", K("spawn"), errno=K(2), strerror=K("x")), n, ii.loc(n))
        ii.emit("proc", "start", {}, n)

        def ev(nm, res):
            def f(i2, aa, kk, nn):
                i2.emit("proc", nm, {}, nn)
                return res(i2)
            return PyFn("proc." + nm, f)
        poll = lambda i2: (NONE, K(255))[i2.choose(2, "exited")] if "poll" in faults else NONE
        at = {"$ns": TRUE, "poll": ev("poll", poll), "wait": ev("wait", lambda i2: K(0)), "terminate": ev("terminate", lambda i2: NONE), "kill": ev("kill", lambda i2: NONE),
              "communicate": ev("wait", lambda i2: TupleV([K(b""), K(b"")])), "returncode": NONE, "stdin": new_stream(ii, [], "procin"), "stdout": new_stream(ii, [], "procout"), "stderr": NONE, "pid": M.sym("pid", T_INT)}
        at["__enter__"] = PyFn("proc.enter", lambda i2, aa, kk, nn: p)
        at["__exit__"] = ev("wait", lambda i2: NONE)
        p = Inst(Ext("types.SimpleNamespace"), at, ii.epoch)
        ii.notes["proc"] = True
        return p
    cfg.ext["subprocess.Popen"] = popen

    def wp(ii, bound, node, fn):
        p = bound.get("packet")
        nm = p.cls.name if isinstance(p, Inst) else "?"
        ii.emit("send", nm, {}, node)
        f = "write " + nm
        if f in faults:
            j = ii.choose(3, f)
            if j:
                nmx = ("", "BrokenPipeError", "ValueError")[j]
                e = ii.make_exc(nmx, K("injected"), **({"errno": K(32), "strerror": K("x")} if j == 1 else {}))
                ii.notes.setdefault("failed", []).append(f + " " + nmx)
                raise AbsRaise(e, node, ii.loc(node))
        return NONE

    def rp(ii, bound, node, fn):
        outs = ("ack", "OSError", "wrong", "ValueError", "KeyboardInterrupt", "remote") if "reply" in faults else ("ack",)
        o = outs[ii.choose(len(outs), "reply")]
        ii.emit("receive", o, {}, node)
        if o == "ack":
            return sample(ii, M.lookup(ii, TD + ".PacketAck"))
        ii.notes.setdefault("failed", []).append("reply " + o)
        if o == "wrong":
            return sample(ii, M.lookup(ii, TD + ".PacketOk"))
        if o == "remote":
            e = ii.call(M.lookup(ii, TD + ".RemoteOSError"), [], {"errno": K(5), "strerror": K("x"), "msg": K("m")}, node)
        else:
            e = ii.make_exc(o, K("injected"), **({"errno": NONE, "strerror": NONE} if o == "OSError" else {}))
        raise AbsRaise(e, node, ii.loc(node))
    cfg.intercepts[TD + ".receive_packet"] = rp
    cfg.intercepts[TD + ".Connection.write_packet"] = wp
    if "stdin" in faults:
        cfg.raises["stream:procin.close"] = [lambda ii: (ii.notes.setdefault("failed", []).append("stdin"), ii.make_exc("BrokenPipeError", K("injected"), errno=K(32), strerror=K("x")))[1]]
    return cfg


CONNECTORS = {"fora.connectors.local.LocalConnector": "local:h", "fora.connectors.ssh.SshConnector": "ssh://h"}


def _connector(ii, q):
    cls = M.lookup(ii, q)
    host = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": K("h")}, ii.epoch)
    return ii.call(cls, [K(CONNECTORS[q]), host], {}, None)


def released(i, ctx):
    ctx.rule("open-failed", "If opening a connector fails after its process was started, the process is ended, and closing the connector afterwards is harmless.")
    ctx.rule("open-ok", "A connector whose dispatcher answered is open.")
    ctx.rule("close", "Closing a connector asks the dispatcher to exit, closes its input and waits for the process, also if the connection is already broken.")
    ctx.rule("close-twice", "Closing twice is harmless.")
    ctx.rule("connection", "A connection is attached to its host while and only while it is open, and its connector is closed on every way out.")
    ctx.rule("propagate", "Errors inside of an open connection reach the caller unchanged.")
    for q in CONNECTORS:
        ctx.functions |= {q + ".open", q + ".close"}
        short = q.rsplit(".", 1)[1]

        def entry(ii):
            M.set_globals(ii)
            c = _connector(ii, q)
            ii.notes["c"] = c
            exc = None
            try:
                ii.call(ii.getattr_(c, "open", None), [], {}, None)
                ii.notes["opened"] = True
            except AbsRaise as e:
                exc = e
            ii.notes["mark"] = len(ii.events)
            if exc is not None:
                try:
                    ii.call(ii.getattr_(c, "close", None), [], {}, None)
                except AbsRaise as e2:
                    ii.notes["close raised"] = e2.exc
                raise exc
            return NONE
        for p in ctx.take(explore(i, _proc_config(i, ("spawn", "reply", "poll", "write PacketCheckAlive")), entry, 2000), short + ".open"):
            ev = p.events[:p.notes.get("mark", len(p.events))]
            pr = [e.name for e in ev if e.kind == "proc"]
            if p.notes.get("opened"):
                ctx.check(not p.notes.get("failed"), "open-ok", short + "|failed", f"a connector is open although its dispatcher is not ready ({p.notes.get('failed')})", p)
                ctx.check("start" in pr and not {"terminate", "kill"} & set(pr), "open-ok", short, "an opened connector has no running process", p)
                continue
            if not p.notes.get("failed") and "start" in pr:
                ctx.viol("open-ok", short + "|raises", f"opening a working connector raises {p.excname}", p)
                continue
            if "start" in pr:
                ended = {"terminate", "kill"} & set(pr) or ("wait" in pr and any(e.kind == "stream" and e.name == "procin.close" for e in ev))
                ctx.check(bool(ended), "open-failed", short, f"the process is left behind when opening fails ({', '.join(p.notes['failed'])})", p)
            ctx.check("close raised" not in p.notes, "open-failed", short + "|close", "closing a connector that failed to open raises an error", p)
            ctx.check(not any(e.kind == "send" for e in p.events[p.notes["mark"]:]), "open-failed", short + "|send", "something is sent to a connector that failed to open", p)

        def entry2(ii):
            M.set_globals(ii)
            c = _connector(ii, q)
            ii.call(ii.getattr_(c, "open", None), [], {}, None)
            ii.events.clear()
            try:
                ii.call(ii.getattr_(c, "close", None), [], {}, None)
            except AbsRaise as e:
                ii.notes["raised"] = e.exc
            ii.notes["mark"] = len(ii.events)
            ii.call(ii.getattr_(c, "close", None), [], {}, None)
            return NONE
        for p in ctx.take(explore(i, _proc_config(i, ("write PacketExit", "stdin")), entry2, 2000), short + ".close"):
            if "mark" not in p.notes:
                continue
            ev = p.events[:p.notes["mark"]]
            names = [(e.kind, e.name) for e in ev]
            lab = ", ".join(p.notes.get("failed", ())) or "intact"
            ctx.check(("send", "PacketExit") in names, "close", short + "|exit", "the dispatcher is not asked to exit", p)
            w = names.index(("proc", "wait")) if ("proc", "wait") in names else None
            ctx.check(w is not None, "close", f"{short}|wait|{lab}", f"the process is not waited for on closing ({lab})", p)
            c = names.index(("stream", "procin.close")) if ("stream", "procin.close") in names else None
            ctx.check(c is not None, "close", f"{short}|stdin|{lab}", f"the process' input is not closed on closing ({lab})", p)
            if w is not None and c is not None:
                ctx.check(c < w, "close", f"{short}|order", "the process is waited for before its input is closed; it would never end if the request to exit got lost", p)
            ctx.check(p.kind == "return", "close-twice", short, f"closing a closed connector raises {p.excname if p.kind == 'raise' else ''} ({lab})", p)
            rest = [(e.kind, e.name) for e in p.events[p.notes["mark"]:] if e.kind in ("send",)]
            ctx.check(not rest, "close-twice", short + "|send", "a closed connector is asked to exit again", p)
    _connections(i, ctx)


def _connections(i, ctx):
    from .core import new_connection
    ctx.functions |= {"fora.connection.Connection.__enter__", "fora.connection.Connection.__exit__"}
    errors = ["RuntimeError", "KeyboardInterrupt"]
    errors += [x for x in M.exception_names(i) if x not in errors]

    def entry(ii):
        M.set_globals(ii)
        host, conn, _ = new_connection(ii)
        host.attrs["connection"] = NONE
        ii.notes["host"], ii.notes["conn"] = host, conn

        def body(v):
            ii.notes["entered"] = True
            ii.notes["during"] = host.attrs.get("connection")
            ii.notes["value"] = v
            k = ii.choose(1 + len(errors), "body")
            if k:
                e = M.some_exception(ii, errors[k - 1], K("body"))
                ii.notes["exc"] = e
                raise AbsRaise(e)
        try:
            ii.run_with(conn, body, None)
        finally:
            ii.notes["after"] = host.attrs.get("connection")
        return NONE
    cfg = Config()
    M.log_intercepts(cfg, i)
    connector_model(cfg, i, fail=("open", "close", "resolve_user", "resolve_group"))

    def note(nm, exc):
        def f(ii):
            ii.notes.setdefault("fault", []).append(nm)
            e = ii.make_exc(exc, K("injected"))
            ii.notes["fault exc"] = e
            return e
        return f
    cfg.raises.update({"remote:open": [note("open", "OSError")], "remote:close": [note("close", "OSError")],
                       "remote:resolve_user": [note("resolve_user", "ValueError"), note("resolve_user", "KeyboardInterrupt")], "remote:resolve_group": [note("resolve_group", "OSError")]})
    for p in ctx.take(explore(i, cfg, entry, 2000), "connection"):
        n = p.notes
        fault = n.get("fault", [])
        opens = sum(1 for e in p.events if e.kind == "remote" and e.name == "open") - fault.count("open")
        closes = sum(1 for e in p.events if e.kind == "remote" and e.name == "close")
        lab = "+".join(fault) or ("body error" if "exc" in n else "normal")
        ctx.check(closes >= opens, "connection", "close|" + lab, f"the connector stays open ({lab})", p)
        ctx.check(closes <= max(opens, 1), "connection", "once|" + lab, f"the connector is closed {closes} times ({lab})", p)
        ctx.check(n.get("after") is NONE or n.get("after") is None, "connection", "detached|" + lab, f"a closed connection stays attached to its host ({lab})", p)
        if n.get("entered"):
            ctx.check(n["during"] is n["conn"], "connection", "attached", "an open connection is not attached to its host", p)
            ctx.check(n["value"] is n["conn"], "connection", "value", "entering a connection doesn't yield it", p)
            ctx.check(not fault or fault == ["close"], "connection", "entered|" + lab, f"a connection is used although it could not be opened ({lab})", p)
            ctx.check(opens == 1, "connection", "opened", f"a connection is used although its connector was opened {opens} times", p)
        elif not fault:
            ctx.viol("connection", "entered|fails", f"opening a working connection raises {p.excname if p.kind == 'raise' else 'nothing'}", p)
        if fault and fault != ["close"]:
            ctx.check(p.kind == "raise", "propagate", lab, f"a failure to open a connection is lost ({lab})", p)
        if "exc" in n and not fault:
            ctx.check(p.kind == "raise" and p.exc is n["exc"], "propagate", "body", "an error inside of a connection is lost", p)
        if fault == ["close"] and "exc" in n:
            ctx.check(p.kind == "raise", "propagate", "body+close", "an error inside of a connection is lost", p)


# --------------------------------------------------------------------------
# C14: settings are validated before they become active


def settings_valid(i, ctx):
    ctx.rule("identity", "The users and groups of defaults in effect were resolved on the remote host (and so exist).")
    ctx.rule("octal", "The modes and the umask of defaults in effect are octal.")
    ctx.rule("cwd", "The working directory of defaults in effect exists on the remote host and is a directory.")
    ctx.rule("rejected", "Invalid settings raise an error, the block is not entered, and the previous defaults stay in effect.")
    ctx.rule("accepted", "Valid settings are accepted.")
    d = M.lookup(i, "fora.types.ScriptWrapper.defaults")
    cur = M.lookup(i, "fora.types.ScriptWrapper.current_defaults")
    ctx.functions |= {"fora.types.ScriptWrapper.defaults", "fora.connection.Connection.resolve_defaults"}
    MODES = ("file_mode", "dir_mode", "umask")
    res = M.lookup(i, "fora.connection.Connection.resolve_defaults")
    settings_cls = M.lookup(i, "fora.remote_settings.RemoteSettings")
    for given, direct in [((f,), False) for f in FIELDS] + [(FIELDS, False), ((), False), (FIELDS, True), (MODES, True)]:
        def entry(ii):
            if direct:          # the method itself, given any settings
                host, conn, script = make_world(ii)
                ii.notes["before"] = ii.notes["after"] = NONE
                v = ii.call(BoundV(conn, res), [ii.instantiate(settings_cls, [], {f: M.sym("new." + f, T_STR) for f in given}, None)], {}, None)
                ii.notes["eff"] = ii.notes["got"] = {f: freeze(ii.getattr_(v, f, None)) for f in FIELDS}
                return NONE
            host, conn, script = make_world(ii)
            ii.notes["before"] = ii.call(BoundV(script, cur), [], {}, None)

            def body(v):
                ii.notes["eff"] = {f: freeze(ii.getattr_(ii.call(BoundV(script, cur), [], {}, None), f, None)) for f in FIELDS}
                ii.notes["got"] = {f: freeze(ii.getattr_(v, f, None)) for f in FIELDS}
            try:
                ii.run_with(ii.call(BoundV(script, d), [], {f: M.sym("new." + f, T_STR) for f in given}, None), body, None)
            finally:
                ii.notes["after"] = ii.call(BoundV(script, cur), [], {}, None)
            return NONE
        cfg = Config()
        M.log_intercepts(cfg, i)
        connector_model(cfg, i, fail=("resolve_user", "resolve_group", "stat"))

        def mkr(nm):
            def f(ii):
                ii.notes.setdefault("bad", []).append(nm)
                return ii.make_exc("ValueError", K("injected"))
            return f
        cfg.raises.update({"remote:resolve_user": [mkr("user")], "remote:resolve_group": [mkr("group")], "remote:stat": [mkr("stat")]})
        old_int = i.ext_models["builtins.int"]

        def int_(ii, a, k, n):
            v = a[0] if a else K(0)
            b = a[1] if len(a) > 1 else k.get("base", K(10))
            if isinstance(v, S):
                v = ii.facts.simp(v)
            if isinstance(v, S) and typeof(v).kind == "str":
                t = _norm(v)
                if t is not v:
                    return old_int(ii, [t, b], {}, n)       # canonical text of an octal number
                if not ii.decide(mk("isint", v, freeze(b))):
                    ii.notes.setdefault("bad", []).append("octal")
                    ii.raise_("ValueError", K("invalid literal"), n)
            return old_int(ii, a, k, n)
        cfg.ext["builtins.int"] = int_
        lab = ("resolve_defaults " if direct else "") + ("modes" if given == MODES else "all" if len(given) > 1 else given[0] if given else "none")
        n_ok = 0
        for p in ctx.take(explore(i, cfg, entry, 4000), "defaults " + lab):
            n = p.notes
            if "after" not in n:
                if p.kind == "raise" and not n.get("bad") and not _cwd_bad(p):
                    ctx.viol("accepted", lab + "|broken", f"after the block the defaults in effect can't be determined ({p.excname})", p)
                continue
            ctx.check(n["after"] is n["before"], "rejected", "restored", "the previous defaults are not in effect afterwards", p)
            if "eff" not in n:
                ctx.check(p.kind == "raise", "rejected", "raise", "a block with invalid settings is skipped silently", p)
                why = bool(n.get("bad")) or _cwd_bad(p)
                ctx.check(why, "accepted", lab, f"valid settings are rejected with {p.excname if p.kind == 'raise' else ''}", p)
                continue
            n_ok += 1
            ctx.check(not n.get("bad"), "rejected", "+".join(n.get("bad", ["-"])), f"a block is entered although checking its settings failed ({n.get('bad')})", p)
            for f in FIELDS:
                for where in ("eff", "got"):
                    v = p.facts.deep(n[where][f])
                    if v is NONE or (isinstance(v, S) and p.facts.isnone(v) is True):
                        continue
                    src = M.sym(("new." if f in given else "base.") + f, T_STR)
                    if f in SETTING_KIND:
                        asked = any(e.kind == "remote" and e.name in ("resolve_user", "resolve_group") and e.res is _unwrap(v) for e in p.events) or _resolved(v, SETTING_KIND[f])
                        if f in given:
                            ctx.check(asked and src in list(subterms(v)), "identity", f, f"'{f}' is in effect as {show(v)}, without having been resolved on the remote host", p)
                    elif f in MODES and f in given:
                        ok = p.facts.known(mk("isint", src, K(8))) is True
                        ctx.check(ok, "octal", f, f"'{f}' is in effect without having been checked to be octal", p)
                    elif f == "cwd" and f in given:
                        if p.facts.known(truthy_atom(src)) is False:
                            continue
                        sts = [e for e in p.events if e.kind == "remote" and e.name == "stat" and p.facts.deep(e.arg("path")) is src]
                        ok = any(e.res is not None and p.facts.isnone(e.res) is False and p.facts.iseq(mk("attr", e.res, "type"), K("dir")) is True for e in sts)
                        ctx.check(ok, "cwd", "cwd", "a working directory is in effect without having been found to be a directory", p)
        if not n_ok:
            ctx.undec(f"defaults {lab}: no accepted path")


def _unwrap(v):
    return v


def _resolved(v, op):
    return isinstance(v, S) and v.op == op


def _cwd_bad(p):
    for e in p.events:
        if e.kind == "remote" and e.name == "stat" and e.res is not None:
            if p.facts.isnone(e.res) is True or p.facts.iseq(mk("attr", e.res, "type"), K("dir")) is False:
                return True
    return False
