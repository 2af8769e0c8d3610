"""Rules over the operation framework, the remote settings and the script scope."""
from __future__ import annotations

from ..terms import (K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT, T_BYTES, T_ANY)
from ..objects import Inst, ListObj, DictObj, TupleV, freeze, cls_name, FnV, PyFn, BoundV, ClassObj, Ext, ModuleObj
from ..interp import explore, Config, AbsRaise
from .. import model as M

API = "fora.operations.api."
OUTCOMES = ("ok", "failed", "none", "OperationError", "CalledProcessError", "RuntimeError", "KeyboardInterrupt")


def _same_exc(a, b):
    return a is b


# --------------------------------------------------------------------------
# C10: the operation decorator


def op_framework(i, ctx):
    ctx.rule("op-active", "The wrapped function is only entered while an initialized inventory and an active host exist.")
    ctx.rule("op-once", "The wrapped function is called exactly once, with the caller's arguments and an operation object.")
    ctx.rule("op-success", "A successful result is handed to the caller unchanged.")
    ctx.rule("op-failed", "A failed result raises OperationError when checking is on (the default), and is returned as failed when it is off.")
    ctx.rule("op-error", "Any error raised inside is never turned into success: it propagates, except an OperationError with checking off, which yields a failed result.")
    ctx.rule("op-none", "A missing result is an error.")
    op_object(i, ctx)
    operation = M.lookup(i, API + "operation")
    resc = M.lookup(i, API + "OperationResult")
    operr = M.lookup(i, API + "OperationError")
    ctx.functions.add(API + "operation")
    CHECK = M.sym("check", T_BOOL)
    X = M.sym("x", T_ANY)
    MSG = M.sym("msg", T_STR)

    outcomes = OUTCOMES + tuple(x for x in M.exception_names(i) if x not in OUTCOMES)

    def entry(ii):
        dbg = ii.choose(2, "debug")
        M.set_globals(ii, args={"debug": TRUE if dbg else FALSE})
        m = ii.modules["fora"]
        g = ii.choose(3, "globals")
        if g == 1:
            m.vars["host"] = NONE
        elif g == 2:
            m.vars["inventory"] = NONE
        ii.notes["globals"] = g

        def inner(i3, args, kwargs, n):
            o = outcomes[i3.choose(len(outcomes), "outcome")]
            i3.notes["outcome"] = o
            i3.emit("inner", o, dict(kwargs), n, raw=(list(args), dict(kwargs)))
            if o in ("ok", "failed"):
                r = Inst(resc, {"success": TRUE if o == "ok" else FALSE, "changed": FALSE, "initial": DictObj([], i3.epoch), "final": DictObj([], i3.epoch),
                                "failure_message": NONE if o == "ok" else MSG}, i3.epoch)
                i3.notes["result"] = r
                return r
            if o == "none":
                return NONE
            if o == "OperationError":
                e = i3.make_exc(operr, MSG)
            elif o == "CalledProcessError":
                e = i3.make_exc("subprocess.CalledProcessError", MSG, returncode=K(1), cmd=K("x"), stdout=NONE, stderr=NONE, output=NONE)
            else:
                e = M.some_exception(i3, o, MSG)
            i3.notes["exc"] = e
            raise AbsRaise(e, n, i3.loc(n))
        f = ii.call(ii.call(operation, [K("opname")], {}, None), [PyFn("inner", inner)], {}, None)
        kw = {"x": X, "name": NONE}
        c = ii.choose(2, "check given")
        if c:
            kw["check"] = CHECK
        ii.notes["check given"] = c
        return ii.call(f, [], kw, None)

    cfg = Config()
    M.log_intercepts(cfg, i)
    for p in ctx.take(explore(i, cfg, entry), "operation decorator"):
        inner = [e for e in p.events if e.kind == "inner"]
        o = p.notes.get("outcome")
        inv = M.sym("inventory", M.inst_ty("fora.inventory_wrapper.InventoryWrapper"))
        init = None
        for a, v in p.facts.d.items():
            if any(isinstance(x, S) and x.op == "attr" and x.a[1] == "_is_initialized" for x in subterms(a)):
                init = v
        inactive = p.notes["globals"] != 0 or init is False
        if inactive:
            ctx.check(not inner, "op-active", "wrapper", "the operation body is entered although no host is active or the inventory is not initialized", p)
            ctx.check(p.kind == "raise", "op-active", "wrapper returns", "an operation without an active host doesn't raise an error", p)
            continue
        if not ctx.check(len(inner) == 1, "op-once", "count", f"the wrapped function is called {len(inner)} times", p):
            continue
        kw = inner[0].raw[1] if inner[0].raw else {}
        ok = kw.get("x") is X and isinstance(kw.get("op"), Inst) and cls_name(kw["op"].cls).endswith(".Operation")
        ctx.check(ok, "op-once", "arguments", "the wrapped function doesn't get the caller's arguments and the operation object", p)
        off = p.notes["check given"] == 1 and p.facts.known(truthy_atom(CHECK)) is False
        und = p.notes["check given"] == 1 and p.facts.known(truthy_atom(CHECK)) is None
        if o == "ok":
            ctx.check(p.kind == "return" and p.value is p.notes["result"], "op-success", "ok", "a successful result is not returned unchanged", p)
        elif o == "failed":
            if off:
                ctx.check(p.kind == "return" and p.value is p.notes["result"], "op-failed", "check=False", "a failed result is not returned although checking is off", p)
            else:
                ctx.check(p.kind == "raise", "op-failed", "check=True", "a failed result is returned to the caller although checking is on", p)
                if p.kind == "raise":
                    ctx.check(any(x.endswith(".OperationError") for x in p.exc_names), "op-failed", "check=True type",
                              f"a failed result raises {p.excname} instead of OperationError", p)
                    a = p.exc.attrs.get("args") if isinstance(p.exc, Inst) else None
                    if isinstance(a, TupleV):
                        ctx.check(any(MSG in list(subterms(freeze(x))) for x in a.items), "op-failed", "message", "the error for a failed result doesn't carry its failure message", p)
        elif o == "none":
            ctx.check(p.kind == "raise", "op-none", "none", "an operation without result is not reported as an error", p)
        else:
            if o == "OperationError" and (off or und):
                ok = p.kind == "return" and isinstance(p.value, Inst) and p.value.attrs.get("success") is FALSE
                if und and p.kind == "raise":
                    ok = False
                ctx.check(ok, "op-error", "OperationError|check=False",
                          "an OperationError raised with checking off is not returned as a failed result", p)
            else:
                ctx.check(p.kind == "raise" and p.exc is p.notes["exc"], "op-error", o, f"a {o} raised inside an operation doesn't reach the caller", p)


OP = API + "Operation"


def op_object(i, ctx):
    """The bookkeeping of one operation: results follow from the declared states."""
    ctx.rule("result-states", "success() yields a successful result only after both states were declared, each at most once; the result carries these states.")
    ctx.rule("result-changed", "A successful result reports a change exactly if the initial and the final state differ; changed(key) exactly if that key differs.")
    ctx.rule("result-failure", "failure() yields a failed, unchanged result with the given message.")
    ctx.rule("result-nested", "An operation that nests others takes over the states of each nested result under its own key, and declares no state itself.")
    ctx.rule("result-reported", "Every result of an operation that doesn't nest others is reported exactly once.")
    oc = M.lookup(i, OP)
    resc = M.lookup(i, API + "OperationResult")
    ctx.functions.add(OP)
    X0, X1, Y0, Y1 = (M.sym("st." + n, T_STR) for n in ("x0", "x1", "y0", "y1"))
    steps = {
        "both": ("i", "f", "s"), "swapped": ("f", "i", "s"), "initial only": ("i", "s"), "final only": ("f", "s"), "none": ("s",), "twice initial": ("i", "i"), "twice final": ("i", "f", "f"),
        "failure": ("x",), "failure late": ("i", "f", "x"), "changed": ("i", "f", "c"), "changed early": ("i", "c"), "unchanged": ("i", "f", "u"), "unchanged early": ("i", "u"), "ignore_none": ("i", "f", "n"),
    }

    def run(seq, nested=False):
        def entry(ii):
            M.set_globals(ii)
            op = ii.instantiate(oc, [], {"op_name": K("op"), "name": NONE}, None)
            call = lambda nm, *a, **k: ii.call(ii.getattr_(op, nm, None), list(a), k, None)
            ii.notes["op"] = op
            r = NONE
            for s in seq:
                ii.notes["step"] = s
                if s == "i":
                    call("initial_state", x=X0, y=Y0)
                elif s == "f":
                    call("final_state", x=X1, y=Y1)
                elif s == "g":
                    call("final_state", x=NONE, y=Y1)
                elif s == "s":
                    r = call("success")
                elif s == "x":
                    r = call("failure", M.sym("msg", T_STR))
                elif s == "c":
                    r = call("changed", K("x"))
                elif s == "u":
                    r = call("unchanged")
                elif s == "n":
                    r = call("unchanged", ignore_none=TRUE)
                elif s == "N":
                    call("nested", TRUE)
                elif s in ("a", "b"):
                    c = M.sym("nr." + s, T_STR)
                    res = Inst(resc, {"success": TRUE, "changed": TRUE, "initial": DictObj([(K("v"), M.sym("n0." + s, T_STR))], ii.epoch), "final": DictObj([(K("v"), M.sym("n1." + s, T_STR))], ii.epoch), "failure_message": NONE}, ii.epoch)
                    call("add_nested_result", K(s), res)
            ii.notes["step"] = "end"
            return r
        cfg = Config()
        M.log_intercepts(cfg, i)
        return ctx.take(explore(i, cfg, entry), "Operation " + " ".join(seq))

    def reports(p):
        return [e for e in p.events if e.kind in ("log", "intercept", "call") and e.name.endswith("print_operation")]

    def split2(p, a, b, t):
        """yields (same?, truth of t) for both cases of a == b"""
        for same in (True, False):
            g = p.facts.copy()
            try:
                g.assume(eq_atom(a, b), same)
                if not g.consistent():
                    continue
            except M.Infeasible:
                continue
            yield same, g

    def state_is(d, want):
        if not isinstance(d, DictObj):
            return None
        got = {k.v: freeze(v) for k, v in d.pairs if isinstance(k, K)}
        return got == want
    for lab, seq in steps.items():
        for p in run(seq):
            if lab in ("initial only", "final only", "none", "twice initial", "twice final", "changed early", "unchanged early"):
                ctx.check(p.kind == "raise", "result-states", lab, f"no error although the states of an operation are declared incompletely or repeatedly ({lab})", p)
                continue
            if not ctx.check(p.kind == "return", "result-states", lab + "|returns", f"the regular use of an operation raises ({lab})", p):
                continue
            r = p.value
            if lab.startswith("failure"):
                ok = isinstance(r, Inst) and r.attrs.get("success") is FALSE and r.attrs.get("changed") is FALSE and freeze(r.attrs.get("failure_message", NONE)) is M.sym("msg", T_STR)
                ctx.check(ok, "result-failure", lab, "a failure is not reported as failed, unchanged and with its message", p)
                continue
            if lab in ("both", "swapped"):
                if not ctx.check(isinstance(r, Inst) and r.attrs.get("success") is TRUE, "result-states", lab + "|success", "success() doesn't yield a successful result", p):
                    continue
                for f, w in (("initial", {"x": X0, "y": Y0}), ("final", {"x": X1, "y": Y1})):
                    k = state_is(r.attrs.get(f), w)
                    if k is not None:
                        ctx.check(k, "result-states", f, f"the result doesn't carry the declared {f} state", p)
            ch = r.attrs.get("changed") if lab in ("both", "swapped") else r
            neg = lab in ("unchanged", "ignore_none")
            t = truthy_atom(freeze(ch)) if not isinstance(ch, bool) else K(ch)
            for same, g in split2(p, X0, X1, t):
                for same2, h in split2(type("P", (), {"facts": g}), Y0, Y1, t):
                    want = (not (same and same2)) if lab != "changed" else not same
                    want = not want if neg else want
                    k = h.known(t)
                    if k is not None:
                        ctx.check(k is want, "result-changed", lab, f"states that are {'equal' if same and same2 else 'different'} yield {lab}={k}", p)
    for p in run(("i", "g", "n")):
        if ctx.check(p.kind == "return", "result-changed", "ignore_none|None", "ignoring unspecified final values raises", p):
            t = truthy_atom(freeze(p.value))
            for same, g in split2(p, Y0, Y1, t):
                k = g.known(t)
                if k is not None:
                    ctx.check(k is same, "result-changed", "ignore_none|None", f"a final value that is None is not ignored: unchanged={k} for a {'n equal' if same else ' different'} other value", p)
    for seq in ("igs", "igu", "igc"):
        for p in run(tuple(seq)):
            if ctx.check(p.kind == "return", "result-changed", seq + "|None", "a final value that is None is an error", p):
                v = p.value.attrs.get("changed") if isinstance(p.value, Inst) else p.value
                k = p.facts.known(truthy_atom(freeze(v))) if v is not None else None
                if k is not None:
                    ctx.check(k is (seq != "igu"), "result-changed", seq + "|None", "a value that is None in the final state only is not regarded as changed", p)
    for seq, keys in (("Nas", "a"), ("Nabs", "ab")):
        for p in run(tuple(seq)):
            if not ctx.check(p.kind == "return" and isinstance(p.value, Inst), "result-nested", seq, "collecting nested results fails", p):
                continue
            for f, pre in (("initial", "n0."), ("final", "n1.")):
                d = p.value.attrs.get(f)
                if isinstance(d, DictObj):
                    got = {k.v: v for k, v in d.pairs if isinstance(k, K)}
                    for s in keys:
                        v = got.get(s)
                        ok = isinstance(v, DictObj) and any(freeze(x) is M.sym(pre + s, T_STR) for _, x in v.pairs)
                        ctx.check(ok, "result-nested", f, f"the {f} state of a nested result is not taken over", p)
    for seq in ("aNs", "Naa", "Ni", "Nf"):
        for p in run(tuple(seq)):
            ctx.check(p.kind == "raise", "result-nested", seq + "|error", "contradictory use of nested results is not an error", p)
    for seq, n in (("ifs", 1), ("x", 1), ("Nas", 0)):
        for p in run(tuple(seq)):
            if p.kind == "return":
                ctx.check(len(reports(p)) == n, "result-reported", seq, f"the result is reported {len(reports(p))} times instead of {n}", p)


# --------------------------------------------------------------------------
# Settings


FIELDS = M.SETTING_FIELDS
RS = "fora.remote_settings.RemoteSettings"
CCTOR = "fora.connectors.connector.Connector."


def _ru(t):
    """resolve_user/resolve_group answers: deterministic and idempotent."""
    return t


def _resolve(op, t):
    if isinstance(t, S) and t.op == op:
        return t
    r = mk(op, t)
    TYPES[r] = T_STR
    return r


def connector_model(cfg, i, fail=()):
    """The public connector API as primitive events (deterministic identity resolution)."""
    M.conn_intercepts(cfg, i, fail, prefix=CCTOR)
    old_u, old_g = cfg.intercepts[CCTOR + "resolve_user"], cfg.intercepts[CCTOR + "resolve_group"]

    def mkres(op, key):
        def h(ii, bound, node, fn):
            a = freeze(bound.get(key, NONE))
            r = _resolve(op, a)
            M.remote(ii, "resolve_" + key, bound, node, r)
            if "resolve_" + key in fail:
                ii.maybe_raise("remote:resolve_" + key, node)
            return r
        return h
    cfg.intercepts[CCTOR + "resolve_user"] = mkres("ruser", "user")
    cfg.intercepts[CCTOR + "resolve_group"] = mkres("rgroup", "group")
    for nm in ("open", "close"):
        def h(ii, bound, node, fn, nm=nm):
            M.remote(ii, nm, bound, node)
            if nm in fail:
                ii.maybe_raise("remote:" + nm, node)
            return NONE
        cfg.intercepts[CCTOR + nm] = h


def settings_inst(i, prefix, given):
    cls = M.lookup(i, RS)
    return Inst(cls, {f: M.sym(f"{prefix}.{f}", T_STR) if f in given else NONE for f in FIELDS}, i.epoch)


def make_world(i, base_given=FIELDS):
    """A script and an open connection with symbolic base settings."""
    M.set_globals(i)
    conn_cls = M.lookup(i, "fora.connection.Connection")
    script_cls = M.lookup(i, "fora.types.ScriptWrapper")
    m = i.modules["fora"]
    connector = M.sym("connector", M.inst_ty("fora.connectors.connector.Connector"))
    host = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE}, i.epoch)
    conn = Inst(conn_cls, {"host": host, "connector": connector, "base_settings": settings_inst(i, "base", base_given)}, i.epoch)
    host.attrs["connection"] = conn
    m.vars["host"] = host
    script = i.instantiate(script_cls, [K("s")], {}, None)
    m.vars["script"] = script
    return host, conn, script


def _norm(t):
    """Forget the canonicalisation of octal strings and repeated identity resolution."""
    if isinstance(t, S):
        if t.op in ("ruser", "rgroup"):
            x = _norm(t.a[0])
            return x if isinstance(x, S) and x.op == t.op else mk(t.op, x)
        inner = None
        if t.op in ("slice", "getslice", "item") and isinstance(t.a[0], S) and t.a[0].op == "call" and str(t.a[0].a[0]).endswith("oct"):
            inner = t.a[0].a[1]
        elif t.op == "call" and str(t.a[0]).endswith("removeprefix") and isinstance(t.a[1], S) and t.a[1].op == "call" and str(t.a[1].a[0]).endswith("oct"):
            inner = t.a[1].a[1]
        elif t.op == "fmt" and len(t.a) >= 2 and t.a[1] == K("o") or t.op == "call" and str(t.a[0]) == "format" and len(t.a) == 3 and t.a[2] == K("o"):
            inner = t.a[0] if t.op == "fmt" else t.a[1]
        if isinstance(inner, S) and inner.op == "call" and str(inner.a[0]).endswith("int"):
            return _norm(inner.a[1])
    return t


SETTING_KIND = {"as_user": "ruser", "owner": "ruser", "as_group": "rgroup", "group": "rgroup"}


def scenarios():
    out = [((), (), ()), (FIELDS, FIELDS, ()), (FIELDS, FIELDS, FIELDS), (FIELDS, (), ()), ((), FIELDS, ())]
    for f in FIELDS:
        out += [((f,), (), ()), ((), (f,), ()), (FIELDS, (f,), ()), ((f,), FIELDS, ()), ((), (), (f,)), (FIELDS, (), (f,))]
    return out


RUN_ARGS = {"as_user": "user", "as_group": "group", "umask": "umask", "cwd": "cwd"}


def _rejected(p):
    """Something about the settings is invalid on this path: a mode that isn't octal or a directory that isn't one."""
    if p.excname.endswith("ValueError") or any(isinstance(a, S) and a.op == "isint" and v is False for a, v in p.facts.d.items()):
        return True
    for e in p.events:
        if e.kind == "remote" and e.name == "stat" and e.res is not None and (p.facts.isnone(e.res) is True or p.facts.iseq(mk("attr", e.res, "type"), K("dir")) is False):
            return True
    return False


def settings_overlay(i, ctx):
    ctx.rule("overlay-fieldwise", "Overlaying settings takes each field from the overlay when it is given there and from the base otherwise, and changes neither operand.")
    ctx.rule("defaults-nesting", "Inside nested default scopes each setting has the innermost given value, falling back outwards and finally to the host's base settings.")
    ctx.rule("run-precedence", "A command is run with its explicit user, group, umask and directory, and with the defaults in effect where none is given.")
    ctx.rule("base-untouched", "Using default scopes never changes the base settings of the connection.")
    cls = M.lookup(i, RS)
    ctx.functions |= {RS + ".overlay", "fora.types.ScriptWrapper.defaults", "fora.connection.Connection.run", "fora.connection.Connection.resolve_defaults"}

    def entry(ii):
        a, b = settings_inst(ii, "a", ()), settings_inst(ii, "b", ())
        for f in FIELDS:
            a.attrs[f] = M.sym("a." + f, Ty("str", True))
            b.attrs[f] = M.sym("b." + f, Ty("str", True))
        ii.notes["ops"] = (a, b)
        fn = M.lookup(ii, RS + ".overlay")
        return ii.call(BoundV(a, fn), [b], {}, None)
    for p in ctx.take(explore(i, Config(), entry), "overlay"):
        if not ctx.check(p.kind == "return" and isinstance(p.value, Inst), "overlay-fieldwise", "result", "overlay doesn't return settings", p):
            continue
        a, b = p.notes["ops"]
        for f in FIELDS:
            A, Bv = M.sym("a." + f, Ty("str", True)), M.sym("b." + f, Ty("str", True))
            ctx.check(a.attrs.get(f) is A and b.attrs.get(f) is Bv, "overlay-fieldwise", f + "|operand", f"overlay changes the field '{f}' of an operand", p)
            for none in (True, False):
                g = p.facts.copy()
                try:
                    g.assume(none_atom(Bv), none)
                except M.Infeasible:
                    continue
                if not none:
                    # also the empty string is a given value
                    for truth in (True, False):
                        h = g.copy()
                        try:
                            h.assume(truthy_atom(Bv), truth)
                        except M.Infeasible:
                            continue
                        got = h.deep(freeze(p.value.attrs.get(f, NONE)))
                        ctx.check(got is Bv, "overlay-fieldwise", f, f"overlay yields {show(got)} for '{f}' although the overlay gives a value", p)
                else:
                    got = g.deep(freeze(p.value.attrs.get(f, NONE)))
                    ctx.check(got is A or (got is NONE and g.isnone(A)), "overlay-fieldwise", f + "|fallback",
                              f"overlay yields {show(got)} for '{f}' although the overlay doesn't give it", p)

    for outer, inner, expl in scenarios():
        def entry2(ii):
            host, conn, script = make_world(ii)
            run = M.lookup(ii, "fora.connection.Connection.run")
            d = M.lookup(ii, "fora.types.ScriptWrapper.defaults")
            cmd = M.sym("command", Ty("list"))
            ekw = {RUN_ARGS[f]: M.sym("run." + f, T_STR) for f in expl if f in RUN_ARGS}

            def kw(prefix, given):
                return {f: M.sym(f"{prefix}.{f}", T_STR) for f in given}

            def body_outer(v):
                def body_inner(w):
                    ii.notes["inner"] = {f: freeze(ii.getattr_(w, f, None)) for f in FIELDS}
                    ii.call(BoundV(conn, run), [cmd], dict(ekw), None)
                ii.run_with(ii.call(BoundV(script, d), [], kw("inner", inner), None), body_inner, None)
                ii.notes["again"] = len(ii.events)
                ii.call(BoundV(conn, run), [cmd], {}, None)
            ii.run_with(ii.call(BoundV(script, d), [], kw("outer", outer), None), body_outer, None)
            ii.notes["base"] = {f: freeze(conn.attrs["base_settings"].attrs.get(f, NONE)) for f in FIELDS}
            return NONE
        cfg = Config()
        M.log_intercepts(cfg, i)
        connector_model(cfg, i)
        lab = f"{'+'.join(outer) if len(outer) < 3 else 'all'} > {'+'.join(inner) if len(inner) < 3 else 'all'} > {'+'.join(expl) if len(expl) < 3 else 'all'}"

        def want(f, levels):
            for prefix, given in levels:
                if f in given:
                    t = M.sym(f"{prefix}.{f}", T_STR)
                    break
            else:
                t = M.sym("base." + f, T_STR)
            return t
        n = 0
        for p in ctx.take(explore(i, cfg, entry2), "defaults " + lab):
            if p.kind != "return":
                if p.kind == "raise" and not _rejected(p):
                    ctx.viol("defaults-nesting", "fails", f"using defaults ({lab}) that are valid raises {p.excname}", p)
                continue
            n += 1
            runs = [e for e in p.events if e.kind == "remote" and e.name == "run"]
            if not ctx.check(len(runs) == 2, "run-precedence", "count", "a run of a command doesn't issue exactly one connector run", p):
                continue
            for f in FIELDS:
                w = want(f, (("inner", inner), ("outer", outer)))
                got = _norm(p.facts.deep(p.notes["inner"][f]))
                exp = [w] + ([mk(SETTING_KIND[f], w)] if f in SETTING_KIND else [])
                ctx.check(got in exp, "defaults-nesting", f, f"in nested defaults ({lab}) '{f}' is {show(got)} instead of {show(w)}", p)
                ctx.check(p.notes["base"][f] is M.sym("base." + f, T_STR), "base-untouched", f, f"default scopes change the base setting '{f}'", p)
                if f not in RUN_ARGS:
                    continue
                for e, lv in ((runs[0], (("run", [x for x in expl if x in RUN_ARGS]), ("inner", inner), ("outer", outer))), (runs[1], (("outer", outer),))):
                    w = want(f, lv)
                    got = _norm(p.facts.deep(e.arg(RUN_ARGS[f]) or NONE))
                    exp = [w] + ([mk(SETTING_KIND[f], w)] if f in SETTING_KIND else [])
                    if e is runs[0] and f in expl:
                        exp = [w]
                    which = "run-precedence" if e is runs[0] else "defaults-nesting"
                    ctx.check(got in exp, which, RUN_ARGS[f] + ("|after" if e is runs[1] else ""),
                              f"the command is run with {RUN_ARGS[f]}={show(got)} instead of {show(w)} ({lab})", p, e.loc)
            for e in runs:
                ctx.check(e.arg("command") is M.sym("command", Ty("list")), "run-precedence", "command", "the command is altered on its way to the connector", p, e.loc)
        if n == 0:
            ctx.undec(f"defaults {lab}: no completed path")

    # deep nesting, the settings of each level in turn on the way in and on the way out
    DEPTH = 7

    def entry3(ii):
        host, conn, script = make_world(ii)
        run = M.lookup(ii, "fora.connection.Connection.run")
        d = M.lookup(ii, "fora.types.ScriptWrapper.defaults")
        keys = ["cwd", "as_user", "umask", "as_group"]
        ii.notes["want"] = []

        def level(k, eff):
            ii.notes["want"].append(dict(eff))
            ii.call(BoundV(conn, run), [M.sym("command", Ty("list"))], {}, None)
            if k == DEPTH:
                return
            f = keys[k % len(keys)]
            v = M.sym(f"level{k}.{f}", T_STR)
            ii.run_with(ii.call(BoundV(script, d), [], {f: v}, None), lambda w: level(k + 1, {**eff, f: v}), None)
            ii.notes["want"].append(dict(eff))
            ii.call(BoundV(conn, run), [M.sym("command", Ty("list"))], {}, None)
        ii.run_with(ii.call(BoundV(script, d), [], {}, None), lambda w: level(0, {f: M.sym("base." + f, T_STR) for f in keys}), None)
        return NONE
    cfg = Config()
    M.log_intercepts(cfg, i)
    connector_model(cfg, i)
    for p in ctx.take(explore(i, cfg, entry3), f"{DEPTH} nested defaults"):
        if p.kind != "return":
            if p.kind == "raise" and not _rejected(p):
                ctx.viol("defaults-nesting", "fails", f"using {DEPTH} nested defaults that are valid raises {p.excname}", p)
            continue
        runs = [e for e in p.events if e.kind == "remote" and e.name == "run"]
        if not ctx.check(len(runs) == len(p.notes["want"]), "run-precedence", "deep count", "a run of a command doesn't issue exactly one connector run", p):
            continue
        for k, (e, w) in enumerate(zip(runs, p.notes["want"])):
            for f, t in w.items():
                got = _norm(p.facts.deep(e.arg(RUN_ARGS[f]) or NONE))
                exp = [t] + ([mk(SETTING_KIND[f], t)] if f in SETTING_KIND else [])
                ctx.check(got in exp, "defaults-nesting", "deep|" + f, f"in {DEPTH} nested defaults the command is run with {RUN_ARGS[f]}={show(got)} instead of {show(t)} at level {min(k, len(runs) - 1 - k)}", p, e.loc)

    connection_settings(i, ctx)


def new_connection(ii, shared=None, user=None):
    """Constructs and opens a connection the way the main program does; the inventory may hand out one settings object for all hosts."""
    cc = M.lookup(ii, "fora.connection.Connection")
    base = shared if shared is not None else settings_inst(ii, "invbase", FIELDS)
    inv = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "base_remote_settings": PyFn("base_remote_settings", lambda i, a, k, n: base)}, ii.epoch)
    connector = M.sym("connector", M.inst_ty("fora.connectors.connector.Connector"))
    host = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": K("h"), "inventory": inv, "create_connector": PyFn("create_connector", lambda i, a, k, n: connector)}, ii.epoch)
    return host, ii.call(cc, [host], {}, None), base


def connection_settings(i, ctx):
    ctx.rule("base-private", "Opening a connection determines the identity in base settings of its own; settings handed out by the inventory (possibly one object for all hosts) are not changed.")
    ctx.functions.add("fora.connection.Connection.__enter__")

    def entry(ii):
        M.set_globals(ii)
        host, conn, base = new_connection(ii)
        ii.notes["before"] = dict(base.attrs)

        def body(v):
            ii.notes["base"] = dict(base.attrs)
            ii.notes["own"] = {f: freeze(ii.getattr_(ii.getattr_(conn, "base_settings", None), f, None)) for f in FIELDS}
        ii.run_with(conn, body, None)
        return NONE
    cfg = Config()
    M.log_intercepts(cfg, i)
    connector_model(cfg, i)
    for p in ctx.take(explore(i, cfg, entry), "opening a connection"):
        if p.kind != "return" or "own" not in p.notes:
            continue
        for f in FIELDS:
            ctx.check(p.notes["base"].get(f) is p.notes["before"].get(f), "base-private", f, f"opening a connection changes '{f}' of the settings object handed out by the inventory", p)
            if f in SETTING_KIND:
                w = mk(SETTING_KIND[f], NONE)
            else:
                w = M.sym("invbase." + f, T_STR)
            got = p.facts.deep(p.notes["own"][f])
            ctx.check(got is w, "base-private", f + "|own", f"the base setting '{f}' of an open connection is {show(got)} instead of {show(w)}", p)


# --------------------------------------------------------------------------
# C13: scopes are left on every exit


def _exc(name):
    return lambda ii: ii.make_exc(name, K("injected"))


def _stack_of(ii, script):
    fn = M.lookup(ii, "fora.types.ScriptWrapper.current_defaults")
    return ii.call(BoundV(script, fn), [], {}, None)


CWD = M.sym("cwd", T_STR)


def _cwd_model(cfg, fault=None):
    """The process' working directory as a tracked value."""
    def getcwd(ii, a, k, n):
        if fault == "getcwd" and ii.choose(2, "getcwd fails"):
            raise AbsRaise(ii.make_exc("OSError", K("injected")), n, ii.loc(n))
        return ii.notes.get("cwd", CWD)

    def chdir(ii, a, k, n):
        if fault == "chdir" and "cwd" not in ii.notes and ii.choose(2, "chdir fails"):
            raise AbsRaise(ii.make_exc("OSError", K("injected")), n, ii.loc(n))
        ii.emit("ext", "os.chdir", {"0": a[0] if a else k.get("path")}, n)
        ii.notes["cwd"] = freeze(a[0] if a else k.get("path"))
        return NONE
    cfg.ext["os.getcwd"] = getcwd
    cfg.ext["os.chdir"] = chdir


def scope_restore(i, ctx):
    ctx.rule("defaults-restored", "After a default scope is left (normally, by error, or because entering it failed) the previous defaults are in effect again.")
    ctx.rule("script-restored", "After a script ends on any way, the active script, the working directory and the script stack are what they were before.")
    ctx.rule("script-active", "While a script runs it is the active script, its directory is the working directory and it is on the script stack.")
    ctx.rule("error-propagates", "An error inside a script or default scope propagates unchanged.")
    ctx.rule("indent-restored", "The output indentation is restored when the indented block is left on any way.")
    d = M.lookup(i, "fora.types.ScriptWrapper.defaults")
    run_script = M.lookup(i, "fora.loader.run_script")
    ctx.functions |= {"fora.types.ScriptWrapper.defaults", "fora.loader.run_script", "fora.logger.indent"}

    errors = ["RuntimeError", "KeyboardInterrupt"]
    errors += [x for x in M.exception_names(i) if x not in errors]

    # default scopes
    def entry(ii):
        host, conn, script = make_world(ii)
        ii.notes["before"] = _stack_of(ii, script)
        out = None
        try:
            def body(v):
                ii.notes["during"] = _stack_of(ii, script)
                k = ii.choose(1 + len(errors), "body")
                ii.notes["body"] = k
                if k:
                    e = M.some_exception(ii, errors[k - 1], K("body"))
                    ii.notes["exc"] = e
                    raise AbsRaise(e)
                if ii.choose(2, "nested"):
                    ii.run_with(ii.call(BoundV(script, d), [], {"umask": M.sym("u", T_STR)}, None), lambda v: None, None)
                    ii.notes["after nested"] = _stack_of(ii, script)
            ii.run_with(ii.call(BoundV(script, d), [], {"owner": M.sym("o", T_STR), "cwd": M.sym("c", T_STR)}, None), body, None)
        finally:
            ii.notes["after"] = _stack_of(ii, script)
        return NONE
    cfg = Config()
    M.log_intercepts(cfg, i)
    connector_model(cfg, i, fail=("resolve_user", "resolve_group", "stat"))
    cfg.raises.update({"remote:resolve_user": [_exc("ValueError"), _exc("OSError")], "remote:resolve_group": [_exc("ValueError")],
                       "remote:stat": [_exc("OSError")], "builtins.int": [_exc("ValueError")]})
    for p in ctx.take(explore(i, cfg, entry), "defaults scope"):
        n = p.notes
        if "after" not in n:
            continue
        ctx.check(n["after"] is n["before"], "defaults-restored", "defaults", "the previous defaults are not in effect after leaving the scope", p)
        if "after nested" in n:
            ctx.check(n["after nested"] is n["during"], "defaults-restored", "nested", "the outer defaults are not in effect after leaving a nested scope", p)
        if "body" in n:
            ctx.check(n["during"] is not n["before"], "script-active", "defaults", "the new defaults are not in effect inside of the scope", p)
        if "exc" in n:
            ctx.check(p.kind == "raise" and p.exc is n["exc"], "error-propagates", "defaults", "an error inside a default scope is lost", p)

    # scripts
    SCRIPT = M.sym("script_file", T_STR)
    for fault in (None, "chdir", "defaults", "exec", "getcwd"):
        def entry2(ii):
            host, conn, script = make_world(ii)
            m = ii.modules["fora"]
            lm = M.module(ii, "fora.loader")
            outer = ii.choose(2, "outer script")
            if not outer:
                m.vars["script"] = NONE
            stack = lm.vars.get("script_stack")
            ii.notes["script before"] = m.vars["script"]
            ii.notes["stack before"] = freeze(stack) if stack is not None else None
            PARAMS = M.sym("params", Ty("dict", True))
            kw = {"params": PARAMS}
            if ii.choose(2, "named"):
                kw["name"] = M.sym("sname", T_STR)
            try:
                return ii.call(run_script, [SCRIPT, M.sym("frame")], kw, None)
            finally:
                ii.notes["script after"] = m.vars["script"]
                ii.notes["stack after"] = freeze(lm.vars.get("script_stack")) if stack is not None else None
        cfg = Config()
        M.log_intercepts(cfg, i)
        connector_model(cfg, i, fail=("stat",))

        def mh(ii, base, name, args, kwargs, node, fault=fault):
            if name != "exec_module":
                return None
            m = ii.modules["fora"]
            st = M.module(ii, "fora.loader").vars.get("script_stack")
            ii.emit("exec", "script", {"module": args[0] if args else NONE}, node)
            ii.notes["script during"] = m.vars["script"]
            ii.notes["cwd during"] = ii.notes.get("cwd", CWD)
            ii.notes["stack during"] = freeze(st) if st is not None else None
            ii.notes["params"] = ii.symattrs.get((args[0], "_params")) if args and isinstance(args[0], S) else None
            if fault == "exec":
                names = errors + ["subprocess.CalledProcessError"]
                e = M.some_exception(ii, names[ii.choose(len(names), "exec")])
                ii.notes["exc"] = e
                raise AbsRaise(e, node, ii.loc(node))
            return NONE
        cfg.meth_hook = mh
        _cwd_model(cfg, fault)
        if fault == "defaults":
            cfg.raises["remote:stat"] = [_exc("OSError")]
        seen = 0
        for p in ctx.take(explore(i, cfg, entry2), f"run_script ({fault or 'no fault'})"):
            n = p.notes
            lab = fault or "normal end"
            ctx.check(n["script after"] is n["script before"], "script-restored", f"active script|{lab}", f"the previously active script is not restored ({lab})", p)
            if n["stack before"] is not None:
                ctx.check(n["stack after"] is n["stack before"], "script-restored", f"stack|{lab}", f"the script stack is not restored ({lab})", p)
            ctx.check(n.get("cwd", CWD) is CWD, "script-restored", f"cwd|{lab}", f"the working directory is not restored after a script ({lab})", p)
            ex = [e for e in p.events if e.kind == "exec"]
            if ex:
                seen += 1
                ctx.check(isinstance(n["script during"], Inst) and n["script during"] is not n["script before"], "script-active", "active script", "the script is not the active one while it runs", p)
                if n["stack before"] is not None:
                    ctx.check(n["stack during"] is not n["stack before"], "script-active", "stack", "a running script is not on the script stack", p)
                ok = n["cwd during"] is not CWD and any(x is SCRIPT for x in subterms(n["cwd during"]))
                ctx.check(ok, "script-active", "cwd", "the script's directory is not the working directory while it runs", p)
                ctx.check(len(ex) == 1, "script-active", "once", "the script is executed more than once", p)
            if p.kind == "return":
                ctx.check(bool(ex), "script-active", "executed", "run_script returns without executing the script", p)
            if "exc" in n:
                ctx.check(p.kind == "raise" and p.exc is n["exc"], "error-propagates", "script", f"an error inside of a script is lost ({cls_name(n['exc'].cls)})", p)
        if not seen:
            ctx.undec(f"run_script ({fault}): script never executed")

    # indentation
    indent = M.lookup(i, "fora.logger.indent")

    def entry3(ii):
        M.set_globals(ii)
        m = M.module(ii, "fora.logger")
        pre = {k: freeze(v) for k, v in m.vars.items() if isinstance(v, (K, S, Inst))}
        cm = ii.call(indent, [], {}, None)

        def body(v):
            ii.notes["during"] = {k: freeze(m.vars[k]) for k in pre}
            k = ii.choose(1 + len(errors), "body")
            if k:
                e = M.some_exception(ii, errors[k - 1], K("body"))
                ii.notes["exc"] = e
                raise AbsRaise(e)
        try:
            ii.run_with(cm, body, None)
        finally:
            ii.notes["pre"] = pre
            ii.notes["post"] = {k: freeze(m.vars[k]) for k in pre}
        return NONE
    for p in ctx.take(explore(i, Config(), entry3), "logger.indent"):
        if "post" in p.notes:
            if "exc" in p.notes:
                ctx.check(p.kind == "raise" and p.exc is p.notes["exc"], "error-propagates", "indent", "an error inside an indented block is lost", p)
            ctx.check(p.notes["pre"] == p.notes["post"], "indent-restored", "indent", "the indentation is not restored when the block is left", p)
