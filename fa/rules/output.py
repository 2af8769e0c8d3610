"""What is printed about operations and inventories."""
from __future__ import annotations

import re
import unicodedata

from ..terms import (K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT, T_BYTES, T_ANY)
from ..objects import Inst, ListObj, SetObj, DictObj, TupleV, freeze, cls_name, FnV, PyFn, Ext, ClassObj
from ..interp import explore, Config, Unsupported, AbsRaise
from .. import model as M
from .ops import result, all_ops, operations, run_op, target_path, fs_ops, _content_ok, DRY_ATOM

LOG = "fora.logger."
API = "fora.operations.api."
DIFF = truthy_atom(M.sym("args.diff", T_BOOL))


def printed(p):
    """The text of the path's print calls, as terms, in order."""
    out = []
    for e in p.events:
        if e.kind == "print":
            for k, v in e.args.items():
                if str(k).isdigit() or k in ("sep", "end"):
                    out.append(freeze(v))
    return out


def _consts(t):
    return [x.v for x in subterms(t) if isinstance(x, K) and isinstance(x.v, str)] if isinstance(t, S) else [t.v] if isinstance(t, K) and isinstance(t.v, str) else []


def _mentions(ts, x):
    if isinstance(x, K):
        return any(str(x.v) in c for t in ts for c in _consts(t))
    return any(x is t or x in subterms(t) for t in ts)


# --------------------------------------------------------------------------


LOSSY = {"strip", "rstrip", "lstrip", "lower", "upper", "expandtabs", "casefold", "removesuffix", "removeprefix", "replace", "translate", "title", "partition", "rpartition"}


def _side(t, c):
    """Whether t is the lines of the content c, without loss; None if that isn't known."""
    if t is None:
        return None
    if c is NONE:
        return isinstance(t, S) and t.op in ("list", "tuple") and not t.a
    if c not in subterms(t):
        return False
    while t is not c:
        if t.op == "meth" and t.a[0] == "split" and t.a[1:] and len(t.a) == 3 and t.a[2] is K(b"\n"):
            t = t.a[1]
        elif t.op == "meth" and t.a[0] == "splitlines":
            keep = t.a[2] if len(t.a) > 2 else None
            if isinstance(keep, S) and keep.op == "kw":
                keep = keep.a[1]
            if keep is not TRUE:
                return False if keep in (None, FALSE) else None
            t = t.a[1]
        elif t.op == "meth" and t.a[0] in LOSSY or t.op in ("slice", "item"):
            return False
        elif t.op in ("list", "tuple", "splat", "listof") and len(t.a) == 1:
            t = t.a[0]
        else:
            return None
    return True


def _report_runs(i, ctx, lab, make, limit=3000, **args):
    """Prints the report of an operation; make(ii) -> (op attributes, result attributes)."""
    po = M.lookup(i, LOG + "print_operation")
    oc, rc = M.lookup(i, API + "Operation"), M.lookup(i, API + "OperationResult")
    ctx.functions.add(LOG + "print_operation")
    cfg = Config()

    def diff_bytes(ii, a, k, n):
        ii.notes["diffed"] = (k.get("a", a[1] if len(a) > 1 else None), k.get("b", a[2] if len(a) > 2 else None))
        return ListObj([K(b"--- "), K(b"+++ "), K(b"@@ -1 +1 @@"), K(b"-old\x1b[2J\x00"), K(b"+new\xff\r"), K(b"+odd\xfe"), K(b"+odd\xff"), K("+odd\x9b2J\x7f\x07".encode()), K(b" ctx")], ii.epoch)
    cfg.ext["difflib.diff_bytes"] = diff_bytes

    def entry(ii):
        M.set_globals(ii, args={"no_color": TRUE, **args})
        ii.modules["fora"].vars["args"].cls = Ext("argparse.Namespace")
        oa, ra = make(ii)
        op = ii.instantiate(oc, [], {"op_name": M.sym("op.kind", T_STR), "name": oa.pop("name", NONE)}, None)
        op.attrs.update({"description": M.sym("op.desc", T_STR), **oa})
        res = Inst(rc, {"success": TRUE, "changed": TRUE, "initial": DictObj([], ii.epoch), "final": DictObj([], ii.epoch), "failure_message": NONE, **ra}, ii.epoch)
        ii.notes["op"], ii.notes["res"] = op, res
        return ii.call(po, [op, res], {}, None)
    return ctx.take(explore(i, cfg, entry, limit), lab)


def _states(*pairs):
    def make(ii):
        return {}, {"initial": DictObj([(K(k), a) for k, a, b in pairs if a is not None], ii.epoch), "final": DictObj([(K(k), b) for k, a, b in pairs if b is not None], ii.epoch)}
    return make


def reports(i, ctx):
    ctx.rule("title", "The report names the operation, its description and its name if one was given, and is marked as dry exactly in a dry run.")
    ctx.rule("failure", "The report of a failed operation carries its message; printing it never fails.")
    ctx.rule("values", "Unless --no-changes is given, every changed value is reported with its key, old and new value; unchanged ones only if verbose.")
    ctx.rule("secrets", "File contents are printed only with --diff.")
    ctx.rule("diff", "With --diff each recorded difference is printed with its file: the comparison is of exactly the old and the new content, and every line of it is printed, in order, with control characters escaped.")
    ctx.rule("color", "Nothing that is printed about an operation contains color sequences if colors are disabled.")
    kind, desc, nm = M.sym("op.kind", T_STR), M.sym("op.desc", T_STR), M.sym("op.name", T_STR)
    msg = M.sym("res.msg", T_STR)
    for given in (True, False):
        for ok in (True, False):
            lab = f"report of a {'successful' if ok else 'failed'} operation {'with' if given else 'without'} name"
            for p in _report_runs(i, ctx, lab, lambda ii: ({"name": nm if given else NONE}, {"success": K(ok), "changed": FALSE, "failure_message": NONE if ok else msg})):
                if not ctx.check(p.kind == "return", "failure", f"raise|{ok}", f"{lab}: printing it raises {p.excname}", p):
                    continue
                ts = printed(p)
                ctx.check(_mentions(ts, kind) and _mentions(ts, desc), "title", "what", f"{lab}: doesn't name the operation and its description", p)
                if given:
                    ctx.check(_mentions(ts, nm), "title", "name", f"{lab}: the given name is not shown", p)
                if not ok:
                    ctx.check(_mentions(ts, msg), "failure", "message", f"{lab}: the failure message is not shown", p)
    for dry in (True, False):
        for p in _report_runs(i, ctx, f"report with dry={dry}", lambda ii: ({}, {}), dry=K(dry)):
            if p.kind == "return":
                ctx.check(any("dry" in c for t in printed(p) for c in _consts(t)) == dry, "title", f"dry|{dry}", f"a {'dry' if dry else 'real'} run is {'not ' if dry else ''}marked as dry", p)
    A, B, C, D = (M.sym("val." + n, T_STR) for n in "abcd")
    forms = {"changed": ("ky", A, B, True), "set": ("ky", NONE, B, True), "same": ("ky", A, A, False), "flag": ("ky", FALSE, TRUE, True), "digest": ("ky", M.sym("val.h0", T_BYTES), M.sym("val.h1", T_BYTES), True), "list": ("ky", TupleV([A]), TupleV([B]), True), "from zero": ("ky", K(0), K(5), True), "to zero": ("ky", K(5), K(0), True), "to empty": ("ky", A, K(""), True), "to false": ("ky", TRUE, FALSE, True)}
    for lab, (k, a, b, ch) in forms.items():
        for verbose in (0, 1):
            for p in _report_runs(i, ctx, f"values {lab}", _states((k, a, b), ("other", C, C)), verbose=K(verbose), changes=TRUE):
                if not ctx.check(p.kind == "return", "values", f"raise|{lab}", f"printing a result with a value that is {lab} raises {p.excname}", p):
                    continue
                if ch and not isinstance(a, K) and p.facts.iseq(freeze(a), freeze(b)) is not False and a is not NONE:
                    if p.facts.iseq(freeze(a), freeze(b)) is None:
                        continue
                    differs = False
                else:
                    differs = ch
                ts = printed(p)
                vals = [x for x in (a, b) if x is not NONE]
                seen = (all if differs else any)(_mentions(ts, freeze(x) if not isinstance(x, TupleV) else freeze(x.items[0])) for x in vals)
                if differs:
                    ctx.check(seen and _mentions(ts, K(k)), "values", f"hidden|{lab}", f"a value that changes ({lab}) is not reported with its key, old and new value (verbosity {verbose})", p)
                else:
                    ctx.check((seen and _mentions(ts, K(k))) == (verbose > 0), "values", f"unchanged|{verbose}", f"an unchanged value is {'not ' if verbose else ''}reported with verbosity {verbose}", p)
                ctx.check(_mentions(ts, C) == (verbose > 0), "values", f"other|{verbose}", f"an unchanged value is {'not ' if verbose else ''}reported with verbosity {verbose}", p)
    for p in _report_runs(i, ctx, "two values", _states(("ky", FALSE, B), ("kz", NONE, D), ("kx", K(1), K(2))), changes=TRUE):
        if p.kind == "return":
            ts = printed(p)
            ctx.check(all(_mentions(ts, x) for x in (K("ky"), K("kz"), K("kx"), B, D)), "values", "several", "not all of several changed values are reported", p)
    for p in _report_runs(i, ctx, "--no-changes", _states(("ky", FALSE, B)), changes=FALSE):
        ctx.check(p.kind == "return" and not _mentions(printed(p), B), "values", "no-changes", "changed values are reported although --no-changes is given", p)
    O, N = M.sym("old content", T_BYTES), M.sym("new content", T_BYTES)
    F0, F1 = M.sym("file0", T_STR), M.sym("file1", T_STR)
    for lab, old, new in (("created", NONE, N), ("modified", O, N), ("deleted", O, NONE)):
        def make(ii):
            d = lambda f: TupleV([f, old, new])
            return {"diffs": ListObj([d(F0), d(F1)], ii.epoch)}, {"initial": DictObj([(K("ky"), FALSE)], ii.epoch), "final": DictObj([(K("ky"), TRUE)], ii.epoch)}
        for on in (True, False):
            for p in _report_runs(i, ctx, f"diff of a file that is {lab}", make, diff=K(on), changes=TRUE):
                if not ctx.check(p.kind == "return", "diff", f"raise|{lab}", f"printing the difference of a file that is {lab} raises {p.excname}", p):
                    continue
                ts = printed(p)
                raw = [c for t in ts for c in _consts(t)]
                ctx.check(not _mentions(ts, O) and not _mentions(ts, N) and (on or not any("new" in c or "old" in c for c in raw)), "secrets", lab, "file contents are printed without --diff" if not on else "file contents are printed unescaped", p)
                ctx.check(not any("\x1b" in c for c in raw), "color", "diff" if on else "report", "color or control sequences are printed although colors are disabled", p)
                if not on:
                    continue
                full = [t.v for t in ts if isinstance(t, K) and isinstance(t.v, str)]
                if p.notes.get("diffed") is None:
                    ctx.undec("how differences are computed")
                    continue
                a, b = (freeze(x) if x is not None else None for x in p.notes["diffed"])
                sides = [_side(a, old), _side(b, new)]
                if None in sides and False not in sides:
                    ctx.undec("how contents are split into lines")
                    continue
                ctx.check(all(sides), "diff", f"sides|{lab}", f"the difference of a file that is {lab} is computed from {show(a)[:60] if a is not None else '-'} and {show(b)[:60] if b is not None else '-'}", p)
                ctx.check(_mentions(ts, F0) and _mentions(ts, F1), "diff", "file", "the file is not named in its difference", p)
                pos = [[j for j, c in enumerate(raw) if w in c] for w in ("@@ -1 +1 @@", "-old", "+new", "+odd", " ctx")]
                ctx.check([len(x) for x in pos] == [2, 2, 2, 6, 2] and all(x[q * (len(x) // 2)] < y[q * (len(y) // 2)] for x, y in zip(pos, pos[1:]) for q in (0, 1)), "diff", "lines", "not every line of the difference is printed once, in order", p)
                ctx.check(len({raw[j] for j in pos[3]}) == 3, "diff", "bytes", "lines that differ in a byte which is not text are printed the same", p)
                ctx.check(not any(unicodedata.category(c) == "Cc" for r in raw if r != "\r" for c in r.strip("\n")), "diff", "escaped", "control characters of file contents are printed unescaped", p)
    for p in _report_runs(i, ctx, "colors", _states(("ky", FALSE, TRUE), ("other", C, C))):
        ctx.check(not any("\x1b" in c for t in printed(p) for c in _consts(t)), "color", "report", "color sequences are printed although colors are disabled", p)


    T = M.sym("text", T_STR)
    conn = lambda ii: Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "host": Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": A, "url": B}, ii.epoch)}, ii.epoch)
    d1 = lambda ii: DictObj([(K("ky"), A)], ii.epoch)
    cell = lambda ii: ListObj([T, K(" ")], ii.epoch)
    err = lambda ii: Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "cmd": T, "returncode": K(1), "stdout": M.sym("out", T_BYTES), "stderr": M.sym("err", T_BYTES)}, ii.epoch)
    for q, args in ((LOG + "debug", [T]), (LOG + "debug_args", [T, d1]), (LOG + "connection_init", [conn]), (LOG + "connection_failed", [T]), (LOG + "connection_established", []), (LOG + "run_script", [T, A]), (LOG + "run_script", [T]), (LOG + "print_indented", [T]),
                    ("fora.utils.print_status", [A, T]), ("fora.utils.print_warning", [T]), ("fora.utils.die_error", [T]), ("fora.utils.die_error", [T, A]), ("fora.utils.print_fullwith", [cell]), ("fora.utils.print_process_error", [err])):
        f = i.modules.get(q.rsplit(".", 1)[0])
        if f is None or not isinstance(f.vars.get(q.rsplit(".", 1)[1]), FnV):
            continue

        def entry(ii):
            M.set_globals(ii, args={"no_color": TRUE, "debug": TRUE})
            ii.modules["fora"].vars["args"].cls = Ext("argparse.Namespace")
            st = M.lookup(ii, LOG + "indent")
            ii.call_ext("contextlib.ExitStack", [], {}, None)
            cm = ii.call(st, [], {}, None)
            ii.call(ii.getattr_(cm, "__enter__", None), [], {}, None)
            return ii.call(M.lookup(ii, q), [x(ii) if callable(x) else x for x in args], {}, None)
        ctx.functions.add(q)
        for p in ctx.take(explore(i, Config(), entry, 300), q):
            ctx.check(not any("\x1b" in c for t in printed(p) for c in _consts(t)), "color", q, f"{q} prints color sequences although colors are disabled", p)
    # the environment variable
    def entry2(ii):
        M.set_globals(ii)
        return ii.call(M.lookup(ii, "fora.main.main"), [], {"argv": M.sym("argv", Ty("list", False, None, T_STR))}, None)

    def env(ii, a, k, n):
        return K("1") if a and a[0] is K("NO_COLOR") else None
    cfg = Config()
    cfg.ext["os.getenv"] = cfg.ext["os.environ.get"] = env

    def entry3(ii):
        M.set_globals(ii, args={"no_color": FALSE})
        ii.modules["fora"].vars["args"].cls = Ext("argparse.Namespace")
        return ii.call(M.lookup(ii, LOG + "use_color"), [], {}, None)
    own = ctx.take(explore(i, cfg, entry3, 20), "use_color")
    own = bool(own) and all(p.kind == "return" and p.facts.known(truthy_atom(freeze(p.value))) is False for p in own)
    for p in ctx.take(explore(i, cfg, entry2, 400), "main"):
        ns = [e for e in p.events if e.kind == "setglobal" and e.name == "fora.args"]
        if not ns or p.kind != "return":
            continue
        ns = ns[-1].args.get("value")
        sets = [e.args.get("value") for e in p.events if e.kind == "setattr" and e.args.get("base") is ns and e.name.endswith(".no_color")]
        known = p.facts.known(truthy_atom(mk("attr", ns, "no_color"))) if isinstance(ns, S) else None
        ctx.check(own or bool(sets) and sets[-1] is TRUE or not sets and known is True, "color", "NO_COLOR", "colors are not disabled by the environment variable NO_COLOR", p)
    _whole_report(i, ctx)


def _whole_report(i, ctx):
    """An operation that uses the interface of operations, with the real report."""
    ctx.rule("whole", "What an operation hands over (kind, name, description, states, differences, failure message) is what is printed when it returns its result, once it succeeds or fails.")
    kind, desc, nm, msg = M.sym("op.kind", T_STR), M.sym("op.desc", T_STR), M.sym("op.name", T_STR), M.sym("res.msg", T_STR)
    A, B, F, O, N = M.sym("val.a", T_STR), M.sym("val.b", T_STR), M.sym("file", T_STR), M.sym("old content", T_BYTES), M.sym("new content", T_BYTES)
    oc = M.lookup(i, API + "Operation")

    def diff_bytes(ii, a, k, n):
        ii.notes["diffed"] = tuple(freeze(x) for x in (k.get("a", a[1] if len(a) > 1 else None), k.get("b", a[2] if len(a) > 2 else None)) if x is not None)
        return ListObj([K(b"--- "), K(b"+++ "), K(b"@@ -1 +1 @@"), K(b"+line")], ii.epoch)
    for lab, old, new, states, ok in (("created", NONE, N, True, True), ("modified", O, N, True, True), ("deleted", O, NONE, True, True), ("unchanged", O, O, False, True), ("failed", None, None, True, False), ("failed early", None, None, None, False)):
        def entry(ii):
            M.set_globals(ii, args={"no_color": TRUE, "diff": TRUE, "changes": TRUE, "verbose": K(0)})
            ii.modules["fora"].vars["args"].cls = Ext("argparse.Namespace")
            call = lambda o, m, *a, **k: ii.call(ii.getattr_(o, m, None), list(a), k, None)
            op = ii.instantiate(oc, [], {"op_name": kind, "name": nm}, None)
            call(op, "desc", desc)
            if states is not None:
                call(op, "initial_state", ky=A, other=NONE)
            if states is not None and ok:
                call(op, "final_state", ky=A if states is False else B, other=NONE)
            if old is not None:
                call(op, "diff", F, old, new)
            ii.emit("mark", "result", {}, None)
            return call(op, "success") if ok else call(op, "failure", msg)
        cfg = Config()
        cfg.ext["difflib.diff_bytes"] = diff_bytes
        cfg.distinct = {A, B, O, N}
        for p in ctx.take(explore(i, cfg, entry, 400), "report of an operation: " + lab):
            if not ctx.check(p.kind == "return", "whole", "raise|" + lab, f"an operation that {'is' if ok else 'has'} {lab} can't report its result ({p.excname})", p):
                continue
            at = max(j for j, e in enumerate(p.events) if e.kind == "mark")
            ts = [freeze(v) for e in p.events[at:] if e.kind == "print" for k, v in e.args.items() if str(k).isdigit()]
            direct = {x for t in ts for x in _shallow(t, ("cat", "fstr", "str", "tostr"))}
            ctx.check({kind, desc, nm} <= direct, "whole", "title|" + lab, f"the report of an operation that is {lab} doesn't show what was handed over", p)
            if not ok:
                ctx.check(msg in direct, "whole", "message|" + lab, "the failure message is not reported as it is", p)
                continue
            if states:
                ctx.check(_mentions(ts, A) and _mentions(ts, B), "whole", "values", "the values handed over are not reported", p)
            d = p.notes.get("diffed")
            if lab == "unchanged":
                ctx.check(d is None, "whole", "same", "a difference is reported for equal contents", p)
            else:
                ctx.check(d is not None and len(d) == 2 and (old is NONE or _mentions([d[0]], O)) and (new is NONE or _mentions([d[1]], N)) and _mentions(ts, F), "whole", "diff|" + lab, f"the difference of a file that is {lab} is not reported", p)
    ops = operations(i, ctx)
    for name in ("files.directory", "files.upload_content"):
        q = ops.get(name)
        if q is None:
            continue
        for p in run_op(i, ctx, name, q, fixed={"name": nm}, key="named"):
            for e in p.events:
                if e.kind == "log" and e.name.endswith(("print_operation", "print_operation_early")) and isinstance((e.raw or {}).get("op"), Inst) and "name" in e.raw["op"].attrs:
                    ctx.check(freeze(e.raw["op"].attrs["name"]) is nm, "whole", "named", f"{name}: the name given to the operation is not what is reported", p)


def _shallow(t, through):
    yield t
    if isinstance(t, S) and t.op in through:
        for x in t.a:
            if isinstance(x, (S, K)):
                yield from _shallow(x, through)


def recorded(i, ctx):
    """What operations hand over for their report."""
    ctx.rule("keys", "Every value of the final state has a counterpart in the initial state, so that reporting a success can't fail after changes were made.")
    ctx.rule("described", "The description of an operation names what it is applied to (the path, user, group, service or packages).")
    ctx.rule("recorded", "With --diff an operation that writes a file records its path, its previous content (none if it didn't exist) and exactly the content that is written.")
    ctx.rule("reported", "Each operation that announced itself reports the result which it returns, and its failure.")
    strict = False
    for p in _report_runs(i, ctx, "values without counterpart", _states(("ky", None, TRUE)), changes=TRUE):
        strict |= p.kind == "raise"
    fs = {k: v[1] for k, v in fs_ops(i).items()}
    fs["files.line"] = "path"
    for name, qual, paths in all_ops(i, ctx):
        given = M.op_args(i, M.lookup(i, qual))
        obj = next((x for x in ("dest", "path", "user", "group", "service", "packages") if x in given), None)
        for p in paths:
            r = result(p) if p.kind == "return" else None
            if obj is not None:
                for e in p.events:
                    if e.kind == "log" and e.name.endswith("print_operation_early") and isinstance((e.raw or {}).get("op"), Inst) and "description" in e.raw["op"].attrs:
                        d = p.facts.deep(freeze(e.raw["op"].attrs["description"]))
                        named = any(isinstance(x, S) and x.op == "param" and str(x.a[0]).startswith(obj) for x in subterms(d))
                        if named or not isinstance(p.facts.deep(M.sym(obj)), K):
                            ctx.check(named, "described", name, f"{name}: is described as {show(d)[:90]}, which doesn't name what it is applied to", p, e.loc)
            early = [e.raw["op"] for e in p.events if e.kind == "log" and e.name.endswith("print_operation_early") and isinstance((e.raw or {}).get("op"), Inst)]
            if early and p.facts.known(truthy_atom(freeze(early[0].attrs.get("has_nested", FALSE)))) is False:
                done = [e.raw for e in p.events if e.kind == "log" and e.name.endswith("print_operation") and (e.raw or {}).get("op") is early[0]]
                if r is not None:
                    same = lambda d: d.get("result") is p.value or p.facts.deep(freeze(d.get("result"))) is p.facts.deep(freeze(p.value))
                    ctx.check(any(same(d) for d in done), "reported", name, f"{name}: returns a result which it doesn't report", p)
                elif p.kind == "raise" and any("OperationError" in x or "CalledProcessError" in x for x in i.class_names(p.exc.cls)):
                    ctx.check(any(isinstance(d.get("result"), Inst) and d["result"].attrs.get("success") is FALSE for d in done), "reported", name + "|failure", f"{name}: fails without reporting it", p)
            if r is None or r[0] is not True:
                continue
            a, b = p.value.attrs.get("initial"), p.value.attrs.get("final")
            if strict and isinstance(a, DictObj) and isinstance(b, DictObj) and name != "files.upload_dir":
                have = {k.v for k, _ in a.pairs if isinstance(k, K)}
                miss = [k.v for k, v in b.pairs if isinstance(k, K) and k.v not in have and p.facts.isnone(freeze(v)) is not True]
                ctx.check(not miss, "keys", f"{name}|{miss}", f"{name}: the final state has {miss}, the initial state hasn't: reporting it raises", p)
            rep = [e.raw["op"] for e in p.events if e.kind == "log" and e.name.endswith("print_operation") and isinstance((e.raw or {}).get("op"), Inst)]
            if not rep or name not in fs:
                continue
            ds = rep[-1].attrs.get("diffs")
            if not isinstance(ds, ListObj):
                continue
            path = target_path(p, fs[name]) if name in fs else None
            ups = [e for e in p.events if e.kind == "remote" and e.name == "upload"]
            stats = [e for e in p.events if e.kind == "remote" and e.name == "stat"]
            absent = any(p.facts.isnone(e.res) is True for e in stats if e.res is not None)
            dls = {id(e.res): e for e in p.events if e.kind == "remote" and e.name in ("download", "download_or") and e.res is not None}
            for d in ds.items:
                if not isinstance(d, TupleV) or len(d.items) != 3:
                    ctx.undec(f"{name}: recorded difference not understood")
                    continue
                f, old, new = (freeze(x) for x in d.items)
                ctx.check(path is None or f is path, "recorded", f"{name}|file", f"{name}: the difference is recorded for {show(f)}", p)
                dl = dls.get(id(old))
                okold = p.facts.isnone(old) is True and absent or dl is not None and freeze(dl.arg("file")) is f
                ctx.check(okold, "recorded", f"{name}|old", f"{name}: the previous content in the recorded difference is {show(old)[:80]}", p)
                for u in ups:
                    ctx.check(freeze(u.arg("content")) is new, "recorded", f"{name}|new", f"{name}: records {show(new)[:80]} as new content but uploads {show(freeze(u.arg('content')))[:80]}", p, u.loc)
                if not ups and name != "files.line":
                    ctx.check(_content_ok(name, p, new), "recorded", f"{name}|dry", f"{name}: records {show(new)[:80]} as new content", p)
            if not ds.items and p.facts.known(DIFF) is not False:
                for u in ups:
                    c = freeze(u.arg("content"))
                    same = any(v is True and k.op == "eq" and c in k.a and any(id(x) in dls for x in k.a) for k, v in p.facts.d.items())
                    if not same and p.facts.known(DIFF) is True:
                        ctx.viol("recorded", f"{name}|missing", f"{name}: writes a file without recording the difference although --diff is given", p, u.loc)
                    elif same:
                        ctx.ok("recorded")
                if not ups and r[1] is True and absent and p.facts.known(DIFF) is True and p.facts.known(DRY_ATOM) is True and name not in ("files.file", "files.directory", "files.link"):
                    if not any(p.facts.isnone(e.res) is False for e in p.events if e.kind == "remote" and e.name == "download_or"):
                        ctx.viol("recorded", f"{name}|dry-missing", f"{name}: a dry run with --diff doesn't show the file that would be created", p)


# --------------------------------------------------------------------------


def inspected(i, ctx):
    from .inventory import World, config, BASE, INV, _get
    ctx.rule("passive", "Inspecting an inventory contacts no host and runs no script.")
    ctx.rule("complete", "It shows every group and host, the host's url, and each variable of each host with its value and the group or host that defined it last.")
    ctx.rule("status", "It ends the program with status zero; an invalid inventory ends it with a nonzero status.")
    ctx.rule("offered", "The inspection is what --inspect-inventory runs, with the given inventory.")
    si = M.lookup(i, "fora.main.show_inventory")
    ctx.functions.add("fora.main.show_inventory")
    v = {n: M.sym("value." + n, T_STR) for n in ("inv", "all", "web", "beta", "over_web", "own", "decl", "elem")}

    def define(**kw):
        def body(ii, mod):
            for k, x in kw.items():
                ii.setattr_(mod, k, x(ii) if callable(x) else x, None)
        return body

    def web_body(ii, mod):
        define(v_web=v["web"], v_over=v["over_web"], **odd)(ii, mod)
        ls = _get(ii, mod, "v_mod")
        if isinstance(ls, ListObj):
            ii.touch(ls)
            ls.items.append(v["elem"])
    odd = {"v_empty": K(""), "v_zero": K(0), "v_false": FALSE, "v_none": NONE, "v_elist": lambda ii: ListObj([], ii.epoch), "v_list": lambda ii: ListObj([v["elem"]], ii.epoch), "v_dict": lambda ii: DictObj([(K("k"), K(7))], ii.epoch), "v_bytes": K(b"x"), "v_int": K(12345)}
    rows_all = {"v_inv": v["inv"], "v_all": v["all"], "v_mod": v["all"]}
    rows_web = {"v_web": v["web"], "v_over": v["over_web"], "v_empty": "''", "v_zero": "0", "v_false": "False", "v_none": "None", "v_elist": "[]", "v_list": v["elem"], "v_dict": "7", "v_bytes": "b'x'", "v_int": "12345"}
    cases = {
        "two hosts": (dict(hosts=["ssh://u@alpha", {"name": "beta", "url": "local:beta", "groups": ["web"], "file": BASE + "/hosts/beta.py", "vars": {"v_decl": v["decl"]}}], groups=["web", {"name": "spare", "after": ["web"]}], glob={"v_inv": v["inv"]},
                           files={BASE + "/groups/all.py": define(v_all=v["all"], v_over=v["all"], v_mod=lambda ii: ListObj([v["all"]], ii.epoch)), BASE + "/groups/web.py": web_body, BASE + "/hosts/beta.py": define(v_own=v["own"])}),
                      INV, ["ssh://u@alpha", "local:beta"], ["all", "web", "spare"], {"v_inv": v["inv"]},
                      {"alpha": {**rows_all, "v_over": v["all"]}, "beta": {**rows_all, **rows_web, "v_own": v["own"], "v_decl": v["decl"]}}, {"v_all": "all", "v_web": "web", "v_over@beta": "web", "v_over@alpha": "all", "v_own": "beta", "v_mod": "all"}),
        "no variables": (dict(hosts=["local:alpha"]), INV, ["local:alpha"], ["all"], {}, {"alpha": {}}, {}),
        "a single url": (dict(hosts=[]), "ssh://u@alpha", ["ssh://u@alpha"], [], {}, {"alpha": {}}, {}),
        "invalid": (dict(hosts=["local:h", "local:h"]), INV, None, None, None, None, None),
        "cyclic": (dict(hosts=["local:h"], groups=[{"name": "a", "after": ["b"]}, {"name": "b", "after": ["a"]}]), INV, None, None, None, None, None),
        "missing": (dict(hosts=[]), BASE + "/other.py", None, None, None, None, None),
    }
    for lab, (world, arg, urls, groups, glob, hosts, actors) in cases.items():
        w = World(order=None, **world)
        cfg = config(i, w, distinct=v.values())

        def shown(ii, bound, node, fn):
            ii.emit("print", "print", {str(j): x for j, x in enumerate(bound.values())}, node)
            return NONE
        for nm in ("print_table", "print_fullwith"):
            cfg.intercepts["fora.utils." + nm] = shown

        def contact(nm):
            def h(ii, bound, node, fn):
                ii.emit("contact", nm, {}, node)
                return NONE
            return h
        for nm in ("fora.types.HostWrapper.create_connector", "fora.connection.open_connection", "fora.connection.Connection.__enter__", "fora.loader.run_script", "fora.connectors.connector.Connector.open"):
            cfg.intercepts[nm] = contact(nm)
        for nm in ("subprocess.run", "subprocess.Popen", "os.system"):
            cfg.ext[nm] = lambda ii, a, k, n, nm=nm: (ii.emit("contact", nm, {}, n), NONE)[1]

        def entry(ii):
            fm = ii.modules["fora"]
            ii.touch(fm)
            for g in ("inventory", "host", "script", "group", "args"):
                fm.vars[g] = NONE
            return ii.call(si, [K(arg)], {}, None)
        for p in ctx.take(explore(i, cfg, entry, 200), "inspecting " + lab):
            bad = [e for e in p.events if e.kind == "contact"]
            ctx.check(not bad, "passive", bad[0].name if bad else "", f"inspecting an inventory calls {bad[0].name if bad else ''}", p, bad[0].loc if bad else None)
            st = None
            if p.kind == "raise" and p.excname.endswith("SystemExit"):
                a = p.exc.attrs.get("args")
                st = p.exc.attrs.get("code", a.items[0] if isinstance(a, TupleV) and a.items else NONE)
            if hosts is None:
                ctx.check(p.kind == "raise" and st not in (NONE, K(0)), "status", lab, f"inspecting an inventory that is {lab} doesn't end with an error", p)
                continue
            if not ctx.check(st in (NONE, K(0)), "status", lab, f"inspecting a valid inventory ends with {'status ' + show(st) if st is not None else p.kind + ' ' + p.excname}", p):
                continue
            ts = printed(p)
            # what is printed after a host's name and before another's is about it
            segs, cur = {}, None
            for t in ts:
                h = {x for x in hosts if any(x == c for c in _leaves(t))}
                cur = h.pop() if len(h) == 1 else None if h else cur
                segs.setdefault(cur, []).append(t)
            for what, xs in (("host", list(hosts)), ("url", urls), ("group", groups)):
                for x in xs:
                    ctx.check(any(re.search(r"(?<![\w:/@.])" + re.escape(x) + r"(?![\w/@.])", c) for t in (segs.get(None, ts) if what == "group" else ts) for c in _consts(t)), "complete", f"{what} {x}", f"the inspection doesn't show the {what} {x}", p)
            for x, val in glob.items():
                ctx.check(any(_has(t, x, None) and _has(t, None, val) for t in segs.get(None, [])) if None in segs else True, "complete", "inventory " + x, f"the inspection doesn't show the inventory's variable {x}", p)
            for h, want in hosts.items():
                seg = segs.get(h)
                if seg is None:
                    ctx.undec(f"{lab}: no section for the host {h} recognised")
                    continue
                every = {x for o in hosts.values() for x in o}
                rows = {}
                for t in seg:
                    for r in _lists(t):
                        ls = _leaves(r)
                        names = every & set(x for x in ls if isinstance(x, str))
                        if len(names) == 1 and len([x for x in ls if x not in names and x != ""]) > 0:
                            rows.setdefault(names.pop(), []).append(r)
                for x, val in want.items():
                    if not ctx.check(any(_has(t, x, None) for t in seg), "complete", f"variable {x}", f"the inspection doesn't show the variable {x} of {h}", p):
                        continue
                    rs = rows.get(x, seg)
                    ctx.check(any(_has(t, None, val) for t in rs), "complete", f"value of {x}", f"the inspection doesn't show the value of the variable {x} of {h}", p)
                    who = actors.get(f"{x}@{h}", actors.get(x))
                    if who and x in rows:
                        ctx.check(any(who in _leaves(r) for r in rows[x]), "complete", f"origin of {x}", f"the inspection doesn't show that {x} of {h} is defined by {who}", p)
                        if x == "v_over" and who == "web":
                            ctx.check(not any("all" in _leaves(r) for r in rows[x]), "complete", f"origin of {x}|overridden", f"the inspection shows {x} of {h} as defined by a group whose value was overridden", p)
                for x in every - set(want):
                    ctx.check(not any(_has(t, x, None) for t in seg), "complete", f"foreign {x}", f"the inspection shows the variable {x} for {h}, which doesn't have it", p)
    found = []

    def hook(ii, o, name, a, k, n):
        if name == "add_argument" and any(x is K("--inspect-inventory") for x in a):
            found.append((k.get("action"), k.get("func")))
        return None

    def entry0(ii):
        M.set_globals(ii)
        return ii.call(M.lookup(ii, "fora.main.main"), [], {"argv": M.sym("argv", Ty("list", False, None, T_STR))}, None)
    cfg = Config()
    cfg.meth_hook = hook
    explore(i, cfg, entry0, 4)
    if not found or not isinstance(found[0][0], ClassObj) or found[0][1] is None:
        ctx.undec("how --inspect-inventory is implemented")
        return
    act, func = found[0]
    cfg = Config()
    M.log_intercepts(cfg, i)
    for nm in ("main.show_inventory", "loader.load_inventory", "main.load_inventory"):
        def h(ii, bound, node, fn):
            ii.emit("contact", "load", {str(j): x for j, x in enumerate(bound.values())}, node)
            return NONE
        cfg.intercepts["fora." + nm] = h

    def entry1(ii):
        M.set_globals(ii)
        o = ii.instantiate(act, [], {"option_strings": ListObj([K("--inspect-inventory")], ii.epoch), "dest": K("inspect_inventory"), "func": func}, None)
        return ii.call(ii.getattr_(o, "__call__", None), [M.sym("parser"), M.sym("ns"), K("inv.py"), K("--inspect-inventory")], {}, None)
    for p in ctx.take(explore(i, cfg, entry1, 20), "the action of --inspect-inventory"):
        fs = [e for e in p.events if e.kind == "contact"]
        ctx.check(len(fs) == 1 and K("inv.py") in fs[0].args.values(), "offered", "action", "--inspect-inventory doesn't run the inspection with the given inventory", p)


def _walk(t):
    """Subterms that are part of a text, without those of the objects it may mention."""
    st = [t]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, S) and x.op not in ("obj", "fn", "bound", "class", "ref", "type", "typex", "len"):
            st.extend(y for y in reversed(x.a) if isinstance(y, (S, K)))


def _leaves(t):
    return [x.v if isinstance(x, K) else x for x in _walk(t) if isinstance(x, K) or not x.a or not isinstance(x.a[0], (S, K))]


def _lists(t):
    return [x for x in _walk(t) if isinstance(x, S) and x.op in ("list", "tuple")]


def _has(t, name, val):
    if name is not None:
        return any(isinstance(c, str) and name in c for c in (x.v for x in _walk(t) if isinstance(x, K)))
    if isinstance(val, str):
        return any(isinstance(x, K) and val in (x.v if isinstance(x.v, str) else repr(x.v)) for x in _walk(t)) or val == "[]" and any(isinstance(x, S) and x.op == "list" and not x.a for x in _walk(t))
    return any(x is val for x in _walk(t))
