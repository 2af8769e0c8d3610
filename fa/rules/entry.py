"""Rules over templates, connector resolution, script parameters and initialisation."""
from __future__ import annotations

import ast
import os
import re

from ..terms import (K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT, T_BYTES, T_ANY)
from ..objects import Inst, ListObj, SetObj, DictObj, TupleV, freeze, cls_name, FnV, PyFn, BoundV, ClassObj, Ext, ModuleObj
from ..interp import explore, Config, AbsRaise
from .. import model as M
from .inventory import World, config, load, defining, gfile, hfile, hostvars, val, BASE, INV, _get, tov, Decl

# --------------------------------------------------------------------------
# C11: templates


def _dictof(v):
    if isinstance(v, DictObj) and v.origin is None and all(isinstance(k, K) for k, _ in v.pairs):
        return {k.v: x for k, x in v.pairs}
    return None


def templates(i, ctx):
    ctx.rule("strict", "Templates are rendered with undefined variables being an error and without escaping.")
    ctx.rule("names", "A template sees the script's variables, overridden by the host's, overridden by the given context; host and inventory are always the active ones.")
    ctx.rule("source", "What is rendered is the given text, or the whole source file decoded as UTF-8.")
    ctx.rule("content", "What is saved is the rendered text encoded as UTF-8.")
    ctx.rule("undefined", "If rendering fails, an error is raised and nothing is uploaded or changed.")
    ctx.rule("pure", "Rendering changes neither the context nor the variables of host, script or inventory, and doesn't influence later templates.")
    ops = {"template_content": "content", "template": "src"}
    ctx.functions |= {"fora.operations.files." + o for o in ops}
    SRC = M.sym("src", T_STR)
    names = ("sv", "hv", "both", "cv", "host", "inventory", "name")
    V = {n: val(i, n) for n in ("script.sv", "script.both", "script.cv", "host.hv", "host.both", "ctx.hv", "ctx.both", "ctx.cv", "ctx.host", "ctx.inventory", "ctx.name", "ctx.only", "script.host", "host.inventory")}
    contexts = {"none": None, "empty": {}, "overrides": {"hv": "ctx.hv", "both": "ctx.both"}, "reserved": {"host": "ctx.host", "inventory": "ctx.inventory"}, "new": {"cv": "ctx.cv", "name": "ctx.name"},
                "single": {"only": "ctx.only"}, "empty values": {"hv": NONE, "sv": FALSE, "both": K(0), "cv": K("")}}
    ctxval = lambda x: V[x] if isinstance(x, str) else x
    for op, arg in ops.items():
        for cname, cspec in contexts.items():
            w = World(hosts=["local:h"], files={hfile("h"): defining(hv=V["host.hv"], both=V["host.both"])}, order=None)
            cfg = config(i, w, set(V.values()))
            M.conn_intercepts(cfg, i)
            M.defaults_intercept(cfg)

            def mh(ii, base, name, args, kwargs, node):
                if not isinstance(base, S):
                    return None
                if name in ("from_string", "get_template", "overlay", "compile"):
                    t = mk("templ", base, *[freeze(x) for x in args], *[mk("kw", k, freeze(v)) for k, v in sorted(kwargs.items())])
                    TYPES.setdefault(t, Ty("opaque"))
                    return t
                if name in ("render", "generate", "stream", "render_async"):
                    d = {}
                    for a in args:
                        x = _dictof(a)
                        if x is None:
                            from ..interp import Unsupported
                            raise Unsupported("context of a template")
                        d.update(x)
                    d.update(kwargs)
                    n = len([e for e in ii.events if e.kind == "render"])
                    r = mk("rendered", base, K(n))
                    TYPES[r] = T_STR
                    ii.emit("render", name, {"templ": base}, node, res=r, raw=d)
                    k = ii.choose(3, "render")
                    if k:
                        e = ii.make_exc(("", "jinja2.exceptions.UndefinedError", "jinja2.exceptions.TemplateSyntaxError")[k], K("x"))
                        ii.notes["undefined"] = True
                        raise AbsRaise(e, node, ii.loc(node))
                    return r
                return None
            cfg.meth_hook = mh

            cfg.intercepts["fora.connection.Connection.stat"] = lambda ii, b, n, fn: (M.remote(ii, "stat", b, n, NONE), NONE)[1]

            def entry(ii):
                load(ii)
                fm = ii.modules["fora"]
                for a in ("dry", "diff", "changes", "verbose"):
                    if a in fm.vars["args"].attrs:
                        fm.vars["args"].attrs[a] = K(0) if a == "verbose" else FALSE
                h = ii.notes["hosts"]["h"]
                conn = Inst(M.lookup(ii, "fora.connection.Connection"), {"host": h, "connector": M.sym("connector", M.inst_ty("fora.connectors.connector.Connector")), "base_settings": NONE}, ii.epoch)
                ii.setattr_(h, "connection", conn, None)
                fm.vars["host"] = h
                sc = ii.call(M.lookup(ii, "fora.types.ScriptWrapper"), [K("s")], {}, None)
                mod = Inst(Ext("types.ModuleType"), {"$ns": TRUE, "__name__": K("s"), "sv": V["script.sv"], "both": V["script.both"], "cv": V["script.cv"], "host": V["script.host"]}, ii.epoch)
                ii.call(ii.getattr_(sc, "wrap", None), [mod], {"copy_members": TRUE, "copy_functions": TRUE}, None)
                fm.vars["script"] = sc
                hm = h.attrs["module"]
                c = NONE if cspec is None else DictObj([(K(k), ctxval(x)) for k, x in cspec.items()], ii.epoch)
                snap = lambda: (freeze(c), {k: v if isinstance(v, (K, S)) else id(v) for k, v in hm.attrs.items()}, {k: v if isinstance(v, (K, S)) else id(v) for k, v in mod.attrs.items()})
                before = snap()
                ii.notes["host"], ii.notes["inv"] = h, fm.vars["inventory"]
                f = M.lookup(ii, "fora.operations.files." + op)
                try:
                    ii.call(f, [], {arg: SRC if arg == "src" else M.sym("content", T_STR), "dest": K("/dest"), "context": c}, None)
                    ii.notes["first done"] = True
                    ii.notes["mark"] = len(ii.events)
                    ii.call(f, [], {arg: SRC if arg == "src" else M.sym("content", T_STR), "dest": K("/dest")}, None)
                finally:
                    ii.notes["pure"] = before == snap()
                return NONE
            n_ok = 0
            for p in ctx.take(explore(i, cfg, entry, 400), f"{op} with {cname} context"):
                if "pure" not in p.notes:
                    if p.kind == "raise":
                        ctx.undec(f"{op}: world could not be built ({p.excname})")
                    continue
                ctx.check(p.notes["pure"], "pure", op, "rendering a template changes its context, or variables of the host or script", p)
                rend = [e for e in p.events if e.kind == "render"]
                ups = [e for e in p.events if e.kind == "remote" and e.name in ("upload", "run")]
                for k, e in enumerate(rend):
                    spec = (cspec or {}) if k == 0 else {}
                    want = {"sv": V["script.sv"], "both": V["host.both"], "hv": V["host.hv"], "cv": V["script.cv"], "name": K("h")}
                    want.update({x: ctxval(y) for x, y in spec.items()})
                    want.update({"host": p.notes["host"], "inventory": p.notes["inv"]})
                    for nm, v in want.items():
                        got = e.raw.get(nm)
                        ctx.check(got is v, "names" if k == 0 else "pure", f"{nm}|{cname}", f"a template sees {show(freeze(got)) if got is not None else 'nothing'} as '{nm}' ({op}, {cname} context{', second template' if k else ''})", p)
                    if "only" not in spec:
                        ctx.check("only" not in e.raw, "pure" if k else "names", f"only|{cname}", f"a template sees the context of an earlier one ({op})", p)
                    env = [t for t in subterms(e.args["templ"]) if isinstance(t, S) and t.op == "call" and str(t.a[0]).startswith("jinja2.")]
                    if len(env) != 1:
                        ctx.undec(f"{op}: unknown template environment {show(e.args['templ'])}")
                    else:
                        kw = {x.a[0]: x.a[1] for x in env[0].a[1:] if isinstance(x, S) and x.op == "kw"}
                        u = show(kw.get("undefined", NONE))
                        ctx.check("StrictUndefined" in u, "strict", "undefined", "undefined variables are not an error in templates", p)
                        ctx.check(kw.get("autoescape", FALSE) is FALSE, "strict", "autoescape", "values are escaped in templates", p)
                    srcs = e.args["templ"].a[1:] if e.args["templ"].op == "templ" else ()
                    text = [x for x in srcs if not (isinstance(x, S) and x.op == "kw")]
                    if len(text) == 1:
                        t = p.facts.deep(text[0])
                        if arg == "content":
                            ctx.check(t is M.sym("content", T_STR), "source", op, f"the rendered text is {show(t)} instead of the given content", p)
                        else:
                            ctx.check(SRC in list(subterms(t)), "source", op, f"the rendered text {show(t)} doesn't come from the source file", p)
                            ctx.check(isinstance(t, S) and not re.match(r"slice|getslice|item|strip|lstrip|rstrip|replace|cat", str(t.op)), "source", "whole", f"the rendered text {show(t)} is not the whole source file", p)
                    n_ok += 1
                if arg == "src":
                    for e in p.events:
                        if e.kind == "ext" and e.name == "builtins.open" and p.facts.deep(e.arg("file")) is SRC:
                            md = e.args.get("mode")
                            if isinstance(md, K) and "b" not in md.v:
                                ctx.check(e.args.get("encoding") in (K("utf-8"), K("utf8"), K("UTF-8")), "source", "encoding", "the template file is not read as UTF-8, but by the locale of the machine", p)
                if p.notes.get("undefined"):
                    last = max((j for j, e in enumerate(p.events) if e.kind == "render"), default=0)
                    ctx.check(p.kind == "raise", "undefined", op, "a template that can't be rendered is not an error", p)
                    ctx.check(not any(e.kind == "remote" and e.name in ("upload", "run") for e in p.events[last:]), "undefined", op + "|upload", "something is uploaded or run although the template can't be rendered", p)
                    continue
                for e in ups:
                    if e.name == "upload":
                        k = len([x for x in p.events[:p.events.index(e)] if x.kind == "render"]) - 1
                        c = p.facts.deep(freeze(e.arg("content")))
                        if k < 0:
                            ctx.viol("content", op + "|none", "something is uploaded without rendering the template", p)
                            continue
                        r = rend[k].res
                        ok = isinstance(c, S) and c.op in ("encode", "call", "meth") and r in c.a and all(isinstance(x, (str, K)) or x is r or (isinstance(x, S) and x.op == "kw") for x in c.a)
                        sh = show(c)
                        lossy = any(isinstance(x, K) and x.v in ("ignore", "replace", "xmlcharrefreplace", "backslashreplace", "namereplace") for y in subterms(c) for x in (y.a if isinstance(y, S) else ()))
                        ctx.check(not lossy, "content", op + "|lossy", f"characters of the rendered text are lost: {sh}", p)
                        ctx.check(ok and "utf" in sh.lower(), "content", op, f"the uploaded content is {sh} instead of the rendered text as UTF-8", p)
            if not n_ok:
                ctx.undec(f"{op} with {cname} context: no rendering recognised")


# --------------------------------------------------------------------------
# C28: connectors


def connectors(i, ctx):
    ctx.rule("chosen", "A host is contacted by its explicit connector if it has one, else by the connector of its url's schema, with the host's url and itself.")
    ctx.rule("rejected", "Without an explicit connector, a missing url, a url without schema or one of an unknown schema is a FatalError.")
    ctx.rule("hostname", "The name of a host declared by url is the host part: without schema, user and port.")
    ctx.rule("qualify", "A url without schema is an ssh url; others are kept.")
    ctx.rule("ssh", "The ssh connector runs ssh with the host's options, the normalised url and the dispatcher as remote command, for which the remote host needs nothing but python3 and standard tools.")
    ctx.rule("local", "The local connector runs the dispatcher with python3.")
    ctx.rule("debug", "Debugging is requested from the dispatcher exactly if it is enabled.")
    ctx.functions |= {"fora.types.HostWrapper.create_connector", "fora.connectors.ssh.SshConnector", "fora.connectors.local.LocalConnector"}
    SSH, LOCAL = "fora.connectors.ssh.SshConnector", "fora.connectors.local.LocalConnector"
    # choice
    cases = [
        ("local:h", {}, LOCAL, "local:h"), ("ssh://h", {}, SSH, "ssh://h"), ("ssh://u@h:22", {}, SSH, "ssh://u@h:22"), ("ssh:h", {}, SSH, "ssh:h"), ("h", {}, SSH, "ssh://h"), ("local:", {}, LOCAL, "local:"),
        ("local:h", {"url": "ssh://other"}, SSH, "ssh://other"), ("ssh://h", {"url": "local:x"}, LOCAL, "local:x"),
        ("local:h", {"connector": "explicit"}, "explicit", "local:h"), (None, {"connector": "explicit"}, "explicit", None), ("ssh://h", {"connector": "explicit", "url": "nosuch:x"}, "explicit", "nosuch:x"),
        (None, {}, None, None), ("local:h", {"url": "plain"}, None, None), ("local:h", {"url": "nosuch://x"}, None, None), ("local:h", {"url": None}, None, None), ("ssh://h", {"url": ""}, None, None),
    ]
    for url, over, want, wurl in cases:
        MADE = M.sym("made", T_ANY)

        def explicit(ii, a, k, n):
            ii.emit("explicit", "connector", {}, n, raw=(list(a), dict(k)))
            return MADE

        def body(ii, mod):
            for k, v in over.items():
                ii.setattr_(mod, k, PyFn("explicit", explicit) if v == "explicit" else K(v), None)
        hd = {"name": "h"}
        if url is not None:
            hd["url"] = url
        w = World(hosts=[hd], files={hfile("h"): body}, order=None)

        def entry(ii):
            load(ii)
            h = ii.notes["hosts"]["h"]
            ii.notes["h"] = h
            return ii.call(ii.getattr_(h, "create_connector", None), [], {}, None)
        lab = f"url {url!r}" + (f", {', '.join(f'{k}={v!r}' for k, v in over.items())} in the host module" if over else "")
        for p in ctx.take(explore(i, config(i, w), entry, 16), lab):
            if "h" not in p.notes:
                ctx.viol("chosen", "load|" + lab, f"the host can't be loaded: {p.excname} ({lab})", p)
                continue
            if want is None:
                ctx.check(p.kind == "raise" and any(x.endswith(".FatalError") for x in p.exc_names), "rejected", lab, f"a host without usable url {'raises ' + p.excname if p.kind == 'raise' else 'gets a connector'} ({lab})", p)
                continue
            if p.kind == "raise":
                ctx.viol("chosen", lab, f"no connector is found: {p.excname} ({lab})", p)
                continue
            h = p.notes["h"]
            if want == "explicit":
                ev = [e for e in p.events if e.kind == "explicit"]
                ok = len(ev) == 1 and p.value is MADE and len(ev[0].raw[0]) + len(ev[0].raw[1]) == 2
                ctx.check(ok, "chosen", "explicit", f"the explicit connector is not used ({lab})", p)
                if ok:
                    vs = list(ev[0].raw[0]) + list(ev[0].raw[1].values())
                    ctx.check(any(x is K(wurl) for x in vs) and any(x is h for x in vs), "chosen", "explicit arguments", f"the explicit connector doesn't get the url and the host ({lab})", p)
            else:
                ok = isinstance(p.value, Inst) and isinstance(p.value.cls, ClassObj) and p.value.cls.qualname == want
                ctx.check(ok, "chosen", "schema|" + lab, f"the connector is {cls_name(p.value.cls) if isinstance(p.value, Inst) else show(freeze(p.value))} ({lab})", p)
                if ok:
                    ctx.check(p.value.attrs.get("host") is h, "chosen", "host", f"the connector belongs to another host ({lab})", p)
                    u = p.value.attrs.get("url")
                    norm = wurl if want == LOCAL or wurl.startswith("ssh://") else "ssh://" + wurl[4:]
                    ctx.check(u is K(norm), "ssh" if want == SSH else "local", "url|" + lab, f"the connector's url is {show(freeze(u)) if u is not None else None} instead of {norm} ({lab})", p)
    # names and urls
    forms = {"ssh://h": "h", "ssh:h": "h", "ssh://u@h": "h", "ssh://u@h:22": "h", "ssh:u@h:22": "h", "ssh://h:22": "h", "ssh://web-1.example.com": "web-1.example.com", "local:h": "h", "local:": "localhost", "local:a.b": "a.b", "ssh://h:2222": "h", "ssh://u@web-2.example.com:7": "web-2.example.com", "ssh://u:pw@h:22": "h", "ssh://u-1.x@h": "h", "ssh:h:4242": "h",
             "nosuch://h": None, "h": None, "": None}
    w = World(hosts=[], order=None)
    for u, want in forms.items():
        def entry2(ii):
            inv = load(ii)
            return ii.call(ii.getattr_(inv, "extract_hostname", None), [K(u)], {}, None)
        for p in ctx.take(explore(i, config(i, w), entry2, 16), "extract_hostname"):
            if want is None:
                ctx.check(p.kind == "raise" and "builtins.ValueError" in p.exc_names, "hostname", "invalid|" + u, f"the hostname of {u!r} is {show(freeze(p.value)) if p.kind == 'return' else p.excname} instead of a ValueError", p)
            else:
                ctx.check(p.kind == "return" and p.value is K(want), "hostname", u, f"the hostname of {u!r} is {show(freeze(p.value)) if p.kind == 'return' else p.excname} instead of {want!r}", p)
    for u, want in {"h": "ssh://h", "ssh://h": "ssh://h", "local:h": "local:h", "ssh:h": "ssh:h", "nosuch:x": "nosuch:x", "web-1.example.com": "ssh://web-1.example.com", "u@h": "ssh://u@h", "localhost": "ssh://localhost", "local": "ssh://local", "ssh": "ssh://ssh", "local:": "local:", "127.0.0.1": "ssh://127.0.0.1"}.items():
        def entry3(ii):
            inv = load(ii)
            return ii.call(ii.getattr_(inv, "qualify_url", None), [K(u)], {}, None)
        for p in ctx.take(explore(i, config(i, w), entry3, 16), "qualify_url"):
            ctx.check(p.kind == "return" and p.value is K(want), "qualify", u, f"{u!r} is qualified as {show(freeze(p.value)) if p.kind == 'return' else p.excname}", p)
    for q in (SSH, LOCAL):
        sch = "ssh" if q == SSH else "local"
        other = "local:h" if q == SSH else "ssh://h"

        def entry4(ii):
            return ii.call(ii.getattr_(M.lookup(ii, q), "extract_hostname", None), [K(other)], {}, None)
        for p in ctx.take(explore(i, config(i, w), entry4, 16), "extract_hostname of another schema"):
            ctx.check(p.kind == "raise" and "builtins.ValueError" in p.exc_names, "hostname", "schema|" + sch, f"the {sch} connector accepts the url {other!r}", p)
    # commands
    source = i.prog.src["fora.connectors.tunnel_dispatcher"]
    O = [M.sym("opt0", T_STR), M.sym("opt1", T_STR)]
    for q, url, opts, attrs, dest in [(SSH, "ssh://u@h:22", O, {}, "ssh://u@h:22"), (SSH, "ssh:h", None, {}, "ssh://h"), (SSH, None, O[:1], {"ssh_host": K("hh"), "ssh_port": K(2222)}, "ssh://hh:2222"), (SSH, "ssh://h", [], {}, "ssh://h"),
                                      (LOCAL, "local:h", None, {}, None), (LOCAL, None, None, {}, None)]:
        for debug in (False, True):
            def entry5(ii):
                v = ii.choose(2, "other flags")
                M.set_globals(ii, args={"debug": TRUE if debug else FALSE, "verbose": K(99 if debug else 2 * v), **{f: TRUE if v else FALSE for f in ("dry", "diff", "changes", "no_color")}})
                at = {"$ns": TRUE, "name": K("h"), **attrs}
                lst = None
                if opts is not None:
                    lst = at["ssh_opts"] = ListObj(list(opts), ii.epoch)
                host = Inst(Ext("types.SimpleNamespace"), at, ii.epoch)
                c = ii.call(M.lookup(ii, q), [NONE if url is None else K(url), host], {}, None)
                r1 = ii.call(ii.getattr_(c, "command", None), [], {}, None)
                ii.notes["first"] = list(r1.items) if isinstance(r1, ListObj) else None
                ii.call(ii.getattr_(c, "command", None), [], {}, None)
                r3 = ii.call(ii.getattr_(c, "command", None), [], {}, None)
                ii.notes["third"] = list(r3.items) if isinstance(r3, ListObj) else None
                ii.notes["opts"] = list(lst.items) if lst is not None else None
                return NONE
            sch = "ssh" if q == SSH else "local"
            lab = f"{sch}, url {url}, {'debug' if debug else 'no debug'}"
            cfg5 = config(i, w)
            dispatcher_file(cfg5, source)
            for p in ctx.take(explore(i, cfg5, entry5, 16), lab):
                f = p.notes.get("first")
                if p.kind == "raise" or f is None:
                    (ctx.viol if p.kind == "raise" else lambda *a: ctx.undec(a[2]))(sch, "command", f"the command can't be built: {p.excname if p.kind == 'raise' else ''} ({lab})", p)
                    continue
                ctx.check(len(f) == len(p.notes["third"]), sch, "repeated", f"the command changes when it is built again ({lab})", p)
                if q == LOCAL:
                    ctx.check(f and f[0] is K("python3"), "local", "interpreter", f"the dispatcher is run by {show(freeze(f[0]))}", p)
                    ctx.check(len(f) > 1 and "tunnel_dispatcher" in show(freeze(f[1])), "local", "file", f"the local connector runs {show(freeze(f[1])) if len(f) > 1 else 'nothing'}", p)
                    ctx.check([x.v if isinstance(x, K) else show(x) for x in f[2:]] == (["--debug"] if debug else []), "debug", "local", f"the dispatcher gets the arguments {[show(freeze(x)) for x in f[2:]]} ({lab})", p)
                    continue
                ctx.check(p.notes["opts"] == (list(opts) if opts is not None else None), "ssh", "options kept", "building the command changes the host's ssh options", p)
                want = [K("ssh")] + list(opts or []) + [K(dest)]
                ctx.check([p.facts.deep(freeze(x)) for x in f[:-1]] == want, "ssh", "argv", f"ssh is run as {[show(freeze(x)) for x in f[:-1]]} instead of {[show(x) for x in want]} ({lab})", p)
                rem = freeze(f[-1])
                if not isinstance(rem, K) or not isinstance(rem.v, str):
                    ctx.undec(f"{lab}: remote command {show(rem)[:200]}")
                    continue
                got, err = payload_of(rem.v)
                if err:
                    ctx.undec(f"{lab}: {err}")
                else:
                    ctx.check(got is not None and got.decode("utf-8", "replace").replace("\r\n", "\n").rstrip("\n") == source.rstrip("\n"), "ssh", "payload", "what the remote command unpacks is not the dispatcher", p)
                const = PAYLOAD.sub("", rem.v)
                outside = re.sub(r"'[^']*'", "''", const)
                ctx.check(not re.search(r"\bpython(?![\w.]*3)\b", const), "ssh", "interpreter", "the remote command runs another interpreter than python3", p)
                ctx.check(("--debug" in const) == debug, "debug", "ssh", f"debugging is {'not ' if debug else ''}requested from the dispatcher ({lab})", p)
                words = set(re.findall(r"(?:^|[|;&(]|\$\()\s*([\w./-]+)", outside))
                ctx.check(words <= STANDARD_TOOLS, "ssh", "tools", f"the remote command needs {sorted(words - STANDARD_TOOLS)}", p)


PAYLOAD = re.compile(r"[A-Za-z0-9+/=_\-\n]{800,}")
STANDARD_TOOLS = {"env", "echo", "printf", "base64", "python3", "exec", "sh", "/bin/sh", "/usr/bin/env", "cat", "gzip", "gunzip", "zcat", "true", "command", "cd", "test", "openssl", "tr", "uudecode"}


def payload_of(cmd):
    """What the remote shell command unpacks: (bytes or None if that fails, reason if the form isn't known)."""
    import base64
    import bz2
    import gzip
    import lzma
    import zlib
    ms = PAYLOAD.findall(cmd)
    if len(ms) != 1:
        return None, f"{len(ms)} encoded parts in the remote command"
    rest = PAYLOAD.sub(" ", cmd)
    strict = lambda alt: lambda b: base64.b64decode(b.replace(b"\n", b""), altchars=alt, validate=True)
    dec = [f for pat, f in {r"base64 (?:-d|-D|--decode)\b|(?<!safe_)b64decode|a2b_base64|decodebytes|standard_b64decode": strict(None), r"urlsafe_b64decode": strict(b"-_"), r"b32decode": base64.b32decode, r"b16decode|unhexlify|fromhex": lambda b: bytes.fromhex(b.decode())}.items() if re.search(pat, rest)]
    unz = [f for pat, f in {r"zlib\.decompress": zlib.decompress, r"gzip\.decompress|gunzip|gzip -d|zcat": gzip.decompress, r"bz2\.decompress|bunzip2|bzip2 -d": bz2.decompress, r"lzma\.decompress|unxz|xz -d": lzma.decompress}.items() if re.search(pat, rest)]
    if len(dec) != 1 or len(unz) != 1:
        return None, "unknown way of unpacking in the remote command"
    try:
        return unz[0](dec[0](ms[0].encode())), None
    except (ValueError, OSError, EOFError, zlib.error, lzma.LZMAError):
        return None, None


def dispatcher_file(cfg, source):
    """The file of the dispatcher module as a constant, and the pure library functions that encode it."""
    import base64
    import bz2
    import gzip
    import lzma
    import zlib
    from ..interp import Unsupported
    data = source.encode()
    handles = {}
    prev = cfg.ext.get("builtins.open")

    def is_td(v):
        return any(isinstance(x, K) and isinstance(x.v, str) and "tunnel_dispatcher" in x.v for x in subterms(freeze(v)))

    def opn(ii, a, k, n):
        f = a[0] if a else k.get("file")
        if not is_td(f):
            return prev(ii, a, k, n) if prev else None
        md = a[1] if len(a) > 1 else k.get("mode", K("r"))
        r = ii.fresh("open", f, md, ty=Ty("opaque"))
        handles[r] = "b" in md.v
        return r
    cfg.ext["builtins.open"] = opn
    old = cfg.meth_hook

    def mh(ii, base, name, args, kwargs, node):
        if base in handles if isinstance(base, S) else False:
            if name == "read" and not args:
                return K(data if handles[base] else source)
            if name == "read":
                raise Unsupported("partial read of the dispatcher")
        if isinstance(base, S) and base.op == "call" and base.a[0] in ("pathlib.Path", "pathlib.PurePosixPath") and is_td(base):
            if name == "read_bytes":
                return K(data)
            if name == "read_text":
                return K(source)
        return old(ii, base, name, args, kwargs, node) if old else None
    cfg.meth_hook = mh
    cfg.ext["inspect.getsource"] = lambda ii, a, k, n: K(source)
    cfg.ext["pkgutil.get_data"] = lambda ii, a, k, n: K(data)

    def fold(f):
        def g(ii, a, k, n):
            if all(isinstance(x, K) for x in list(a) + list(k.values())):
                try:
                    return K(f(*[x.v for x in a], **{kk: x.v for kk, x in k.items()}))
                except (TypeError, ValueError) as e:
                    ii.raise_(type(e).__name__, K(str(e)), n)
            return None
        return g
    for m in (base64, bz2, gzip, lzma, zlib):
        for nm in ("b64encode", "standard_b64encode", "urlsafe_b64encode", "encodebytes", "b85encode", "a85encode", "b32encode", "b16encode", "b64decode", "compress", "decompress"):
            if hasattr(m, nm):
                cfg.ext[f"{m.__name__}.{nm}"] = fold(getattr(m, nm))
    for nm in ("b2a_base64", "hexlify"):
        import binascii
        cfg.ext["binascii." + nm] = fold(getattr(binascii, nm))


# --------------------------------------------------------------------------
# C29: script parameters and nested scripts


def _frames_model(cfg, script_frame):
    """The frames a piece of the package can inspect: those of its own functions, then that of the script."""
    def ns(ii, **kw):
        return Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, **kw}, ii.epoch)

    def chain(ii):
        out = script_frame(ii)
        fr = [out]
        for f in ii.frames:
            g = DictObj([(K(k), v) for k, v in f.module.vars.items()], ii.epoch)
            code = ns(ii, co_filename=K("<" + f.module.name + ">"), co_name=K(f.name.rsplit(".", 1)[-1]))
            out = ns(ii, f_globals=g, f_locals=DictObj([], ii.epoch), f_back=out, f_code=code, f_lineno=K(1))
            fr.append(out)
        return fr[::-1]

    def info(ii, f):
        return ns(ii, frame=f, filename=K("f"), lineno=K(1), function=K("fn"), code_context=NONE, index=K(0))
    cfg.ext["inspect.stack"] = lambda ii, a, k, n: ListObj([info(ii, f) for f in chain(ii)], ii.epoch)
    cfg.ext["inspect.currentframe"] = lambda ii, a, k, n: chain(ii)[0]

    def getframe(ii, a, k, n):
        d = a[0].v if a and isinstance(a[0], K) else 0
        c = chain(ii)
        if d >= len(c):
            ii.raise_("ValueError", K("call stack is not deep enough"), n)
        return c[d]
    cfg.ext["sys._getframe"] = getframe

    def outer(ii, a, k, n):
        out, f = [], a[0]
        while isinstance(f, Inst):
            out.append(info(ii, f))
            f = f.attrs.get("f_back")
        return ListObj(out, ii.epoch)
    cfg.ext["inspect.getouterframes"] = outer


def parameters(i, ctx):
    ctx.rule("value", "A script parameter has the given value, whatever it is, else its declared default.")
    ctx.rule("required", "A parameter without default that was not given is an error.")
    ctx.rule("result", "The decorated class itself is the result, and has only the declared parameters.")
    ctx.rule("passed", "A script gets exactly the parameters of its own call, also in nested calls.")
    ctx.rule("name", "The active script has the name given for the call, by default that of its file.")
    ctx.rule("host", "Calling a script while no inventory is loaded or no host is active is an error, and nothing of it is executed.")
    ctx.rule("recursion", "Running a script that is already running is an error before anything of it is executed, unless recursive=True was given; running it again after it ended is not.")
    ctx.functions |= {"fora.types.ScriptWrapper.Params", "fora.operations.local.script", "fora.loader.run_script"}
    P = {k: M.sym("given." + k, T_STR) for k in "ab"}
    D = M.sym("default.b", T_STR)
    LST = ListObj([K("x")], i.epoch)
    for given in ("absent", (), ("a",), ("b",), ("a", "b"), ("a", "zz"), ("a", "b", "falsy"), ("a", "b", "none"), ("a", "b", "typed"), ("a", "b", "zero")):
        def vals():
            v = dict(P)
            if "typed" in given:
                v["a"], v["b"] = K(5), LST
            if "zero" in given:
                v["a"], v["b"] = FALSE, K(0)
            if "falsy" in given:
                v["b"] = K("")
            if "none" in given:
                v["a"], v["b"] = NONE, NONE
            return v

        def frame(ii):
            g = DictObj([(K("__name__"), K("s"))], ii.epoch)
            if given != "absent":
                v = vals()
                d = DictObj([(K(k), v[k]) for k in "ab" if k in given] + ([(K("zz"), K(1))] if "zz" in given else []), ii.epoch)
                g.pairs.append((K("_params"), d))
            return Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "f_globals": g, "f_locals": g, "f_back": NONE, "f_lineno": K(1)}, ii.epoch)

        def entry(ii):
            M.set_globals(ii)
            sc = ii.instantiate(M.lookup(ii, "fora.types.ScriptWrapper"), [K("s")], {}, None)
            node = ast.parse("class params:\n    a: str\n    b: str = 1\n").body[0]
            c = ClassObj("params", "s.params", [], ii.modules["fora.types"], node, ii.epoch)
            c.vars = {"b": D}
            c.annotations = DictObj([(K("a"), Ext("builtins.str")), (K("b"), Ext("builtins.str"))], ii.epoch)
            c.ann_nodes = {s.target.id: s.annotation for s in node.body}
            ii.notes["c"] = c
            r = ii.call(ii.getattr_(sc, "Params", None), [c], {}, None)
            ii.notes["vars"] = {k: v for k, v in c.vars.items() if not k.startswith("__")}
            return r
        cfg = Config()
        M.log_intercepts(cfg, i)
        _frames_model(cfg, frame)
        lab = "no parameters" if given in ("absent", ()) else "given: " + ", ".join(given)
        for p in ctx.take(explore(i, cfg, entry, 200), "Params " + lab):
            missing = given == "absent" or "a" not in given
            if missing:
                ctx.check(p.kind == "raise", "required", lab, f"a missing parameter without default is accepted ({lab})", p)
                continue
            if p.kind == "raise":
                ctx.viol("value", "raise|" + lab, f"the parameters are rejected with {p.excname} ({lab})", p)
                continue
            ctx.check(p.value is p.notes["c"], "result", "class", "the decorated class is replaced", p)
            v = p.notes["vars"]
            w = vals()
            for k in "ab":
                want = w[k] if k in given else D
                ctx.check(v.get(k) is want, "value", f"{k}|{lab}", f"parameter {k} is {show(freeze(v[k])) if k in v else 'missing'} instead of {show(want)} ({lab})", p)
            ctx.check(set(v) <= {"a", "b"}, "result", "extra", f"the parameters have the additional entries {set(v) - {'a', 'b'}}", p)
    _nested(i, ctx)


RUN, ERR, FAIL = "run", "error", "fails"


class Call:
    """A call of a script: how its file is spelled, the other arguments, what it calls itself, and what is to be expected."""

    def __init__(self, spell, kids=(), expect=RUN, **kw):
        self.spell, self.kids, self.expect, self.kw = spell, kids, expect, kw


def nested_scenarios():
    A, B, A2, D, LINK, BS = BASE + "/a.py", BASE + "/sub/b.py", BASE + "/sub/a.py", BASE + "/v1.2.py", BASE + "/link.py", "sub/b.py"
    PB, PC = {"p": K("b")}, {"q": K(3), "r": FALSE}
    yield "nested", Call(A, [Call(B, params=PB, name="given name")])
    yield "nested without parameters", Call(A, [Call(B)])
    yield "empty parameters", Call(A, [Call(B, params={})])
    yield "twice", Call(A, [Call(B, params=PB), Call(B), Call(B, params=PC, name="third")])
    yield "self", Call(A, [Call(A, expect=ERR)])
    yield "self with parameters", Call(A, [Call(A, expect=ERR, params=PB, name="other")])
    yield "self allowed", Call(A, [Call(A, recursive=TRUE, params=PB), Call(B)])
    yield "self forbidden", Call(A, [Call(A, expect=ERR, recursive=FALSE), Call(B)])
    yield "self by relative path", Call(A, [Call("a.py", expect=ERR), Call("./a.py", expect=ERR), Call("sub/../a.py", expect=ERR)])
    yield "self by symbolic link", Call(A, [Call(LINK, expect=ERR), Call("link.py", expect=ERR)])
    yield "started by symbolic link", Call(LINK, [Call(A, expect=ERR), Call("a.py", expect=ERR), Call(B)])
    yield "mutual", Call(A, [Call(BS, [Call("../a.py", expect=ERR), Call(A, expect=ERR)])])
    yield "mutual allowed", Call(A, [Call(BS, [Call(A, recursive=TRUE)], params=PB)])
    yield "allowed only once", Call(A, [Call(BS, [Call(A, [Call(B, expect=ERR), Call(A, expect=ERR)], recursive=TRUE)], params=PB)])
    yield "same file name elsewhere", Call(A, [Call(A2, [Call("../sub/b.py"), Call("a.py", expect=ERR)], params=PC)])
    yield "relative to the calling script", Call("a.py", [Call(BS, [Call("a.py"), Call("../v1.2.py")]), Call(BS)])
    yield "deep", Call(A, [Call(BS, [Call(D, [Call(A2, [Call(B, expect=ERR), Call(D, expect=ERR)], params=PC)], params=PB)]), Call(D)], params=PC)
    yield "dots in the file name", Call(A, [Call(D), Call("v1.2.py", name="n")])
    yield "failing", Call(A, [Call(B, expect=FAIL, params=PB), Call(B), Call(D, [Call(B, expect=FAIL), Call(A, expect=ERR), Call(B)]), Call(A, expect=ERR)])
    yield "failing inside", Call(A, [Call(D, [Call(B, [Call(A2, expect=FAIL)], expect=FAIL)], expect=FAIL), Call(A2), Call(B), Call(D), Call(A, expect=ERR)])
    yield "missing file", Call(A, [Call("nothere.py", expect=FAIL), Call(B, [Call("nothere.py", recursive=TRUE, expect=FAIL)]), Call(B)])


def _nested(i, ctx):
    from .core import connector_model, CCTOR, _cwd_model
    A = BASE + "/a.py"
    script = M.lookup(i, "fora.operations.local.script")
    run_script = M.lookup(i, "fora.loader.run_script")
    files = {BASE + "/a.py", BASE + "/sub/b.py", BASE + "/sub/a.py", BASE + "/v1.2.py"}

    def given(ii, kw):
        kw = {k: (DictObj([(K(a), b) for a, b in v.items()], ii.epoch) if isinstance(v, dict) else K(v) if isinstance(v, str) else v) for k, v in kw.items()}
        return kw

    def body(path):
        def f(ii, mod):
            c = ii.notes.get("cur")
            fm = ii.modules["fora"]
            sc = fm.vars.get("script")
            pr = _get(ii, mod, "_params")
            ii.emit("run", path, {"params": freeze(pr) if pr is not None else NONE, "name": freeze(_get(ii, sc, "name")) if isinstance(sc, Inst) else NONE}, None, raw=c)
            ii.notes["cur"] = None
            for kid in c.kids if c else ():
                ii.notes["cur"] = kid
                try:
                    ii.call(script, [], {"script": K(kid.spell), **given(ii, kid.kw)}, None)
                    ii.emit("ended", kid.spell, {}, None, raw=(kid, None))
                except AbsRaise as e:
                    ii.emit("ended", kid.spell, {}, None, raw=(kid, sorted(ii.class_names(e.exc.cls))))
                ii.notes["cur"] = None
            if c and c.expect is FAIL:
                ii.raise_("RuntimeError", K("script"), None)
        return f
    for sname, root in nested_scenarios():
        w = World(hosts=["local:h"], files={f: body(f) for f in files}, order=None)
        w.links = {BASE + "/link.py": A}
        cfg = config(i, w)
        connector_model(cfg, i)
        M.defaults_intercept(cfg)
        _cwd_model(cfg, None)
        _frames_model(cfg, lambda ii: Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "f_globals": DictObj([], ii.epoch), "f_locals": DictObj([], ii.epoch), "f_back": NONE, "f_lineno": K(1)}, ii.epoch))

        def entry(ii):
            load(ii)
            fm = ii.modules["fora"]
            fm.vars["host"] = ii.notes["hosts"]["h"]
            fm.vars["script"] = NONE
            ii.notes["cwd"] = K(BASE)
            ii.notes["cur"] = root
            kw = given(ii, root.kw)
            ii.call(run_script, [K(root.spell), M.sym("frame")], {k: v for k, v in kw.items() if k in ("params", "name")}, None)
            return NONE
        for p in ctx.take(explore(i, cfg, entry, 64), sname):
            if p.kind == "raise":
                ctx.viol("recursion", "raise|" + sname, f"running scripts raises {p.excname} {show(freeze(p.exc.attrs.get('args', NONE)))} ({sname})", p)
                continue
            runs = [e for e in p.events if e.kind == "run"]
            want, order = [], []

            def visit(c, cwd):
                f = os.path.normpath(os.path.join(cwd, c.spell))
                f = w.links.get(f, f)
                if c.expect is ERR or f not in files:
                    order.append((c, ERR))
                    return
                want.append((c, f))
                for k in c.kids:
                    visit(k, os.path.dirname(f))
                order.append((c, c.expect))
            visit(root, BASE)
            got = [e.name[len(BASE) + 1:] for e in runs]
            ctx.check([e.name for e in runs] == [f for _, f in want], "recursion", sname, f"the scripts {', '.join(got) or 'none'} are executed instead of {', '.join(f[len(BASE) + 1:] for _, f in want)} ({sname})", p)
            ended = [e.raw for e in p.events if e.kind == "ended"]
            for c, exc in ended:
                if c.expect is ERR:
                    ctx.check(exc is not None and "builtins.ValueError" in exc, "recursion", "error|" + sname, f"a recursive call of {c.spell} {'raises ' + exc[0] if exc else 'is accepted or ignored'} ({sname})", p)
                elif c.expect is RUN:
                    ctx.check(exc is None, "recursion", "allowed|" + sname, f"a permitted call of {c.spell} raises {exc and exc[0]} ({sname})", p)
                else:
                    ctx.check(exc is not None and ("builtins.RuntimeError" in exc or "builtins.OSError" in exc), "recursion", "failing|" + sname, f"the failure of {c.spell} {'becomes ' + exc[0] if exc else 'is lost'} ({sname})", p)
            if [e.name for e in runs] != [f for _, f in want]:
                continue
            none = (freeze(DictObj([])), NONE)
            for e, (c, f) in zip(runs, want):
                pw = c.kw.get("params")
                x = freeze(DictObj([(K(a), b) for a, b in pw.items()])) if pw else None
                ctx.check(e.args["params"] is x if pw else e.args["params"] in none, "passed", sname, f"script {f} gets the parameters {show(e.args['params'])} ({sname})", p)
                nm = c.kw.get("name") or os.path.splitext(os.path.basename(c.spell))[0]
                ctx.check(e.args["name"] is K(nm), "name", sname, f"script {f} has the name {show(e.args['name'])} instead of {nm} ({sname})", p)
    # no active host, or no inventory
    for lab in ("no active host", "no inventory"):
        w = World(hosts=["local:h"], files={f: body(f) for f in files}, order=None)
        cfg = config(i, w)
        connector_model(cfg, i)
        M.defaults_intercept(cfg)
        _cwd_model(cfg, None)
        _frames_model(cfg, lambda ii: Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "f_globals": DictObj([], ii.epoch), "f_locals": DictObj([], ii.epoch), "f_back": NONE, "f_lineno": K(1)}, ii.epoch))

        def entry6(ii):
            fm = ii.modules["fora"]
            if lab == "no inventory":
                ii.touch(fm)
                M.set_globals(ii)
                fm.vars["inventory"] = NONE
            else:
                load(ii)
            fm.vars["host"] = fm.vars["script"] = NONE
            ii.notes["cwd"] = K(BASE)
            return ii.call(script, [], {"script": K(A)}, None)
        for p in ctx.take(explore(i, cfg, entry6, 16), lab):
            ctx.check(p.kind == "raise" and not any(e.kind == "run" for e in p.events), "host", lab, f"a script is executed although there is {lab}", p)


# --------------------------------------------------------------------------
# C30: initialisation of a deploy


DIRECTORY = ((), (("entry", "file"),), ((".hidden", "file"),), (("sub", "dir"),), ((".git", "dir"),), (("hosts", "dir"), ("a", "file")))


def init_deploy(i, ctx):
    ctx.rule("confirmed", "Nothing is created in a directory which isn't empty unless the user confirmed with y or yes.")
    ctx.rule("refused", "A refused initialisation ends with a nonzero status, a successful one with status zero.")
    ctx.rule("layout", "Every layout offered on the command line is known; an unknown layout is an error and creates nothing.")
    ctx.rule("inside", "A layout creates files only below the current directory, and each directory before the files in it.")
    f = M.lookup(i, "fora.example_deploys.init_deploy_structure")
    ctx.functions.add("fora.example_deploys.init_deploy_structure")
    layouts = layouts_offered(i, ctx)
    ANSWERS = {"y": True, "yes": True, "Y": True, "YES": True, "Yes": True, "n": False, "no": False, "": False, "N": False, "yy": False, "nay": False, "EOF": False, "yes please": False}
    for lay in layouts + ["nosuch"]:
        def entry(ii):
            M.set_globals(ii)
            return ii.call(f, [K(lay)], {}, None)
        cfg = Config()
        M.log_intercepts(cfg, i)

        def contents(ii):
            if "contents" not in ii.notes:
                j = ii.choose(len(DIRECTORY), "directory contents")
                ii.notes["contents"] = DIRECTORY[j]
                ii.notes["full"] = bool(DIRECTORY[j])
            return ii.notes["contents"]

        def dirent(ii, nm, kind):
            yes = lambda x: PyFn("is", lambda i2, aa, kk, nn: TRUE if x else FALSE)
            return Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": K(nm), "path": K("./" + nm), "is_file": yes(kind == "file"), "is_dir": yes(kind == "dir"), "is_symlink": yes(False), "exists": yes(True)}, ii.epoch)
        cfg.ext["os.scandir"] = lambda ii, a, k, n: ListObj([dirent(ii, *x) for x in contents(ii)], ii.epoch)
        cfg.ext["os.listdir"] = lambda ii, a, k, n: ListObj([K(x) for x, _ in contents(ii)], ii.epoch)

        def globbed(ii, a, k, n):
            pat = a[0].v if a and isinstance(a[0], K) else None
            if pat is None or "**" in pat:
                from ..interp import Unsupported
                raise Unsupported("glob")
            import fnmatch
            pat = os.path.basename(pat)
            return ListObj([K(x) for x, _ in contents(ii) if fnmatch.fnmatchcase(x, pat) and (pat.startswith(".") or not x.startswith(".") or k.get("include_hidden") is TRUE)], ii.epoch)
        for nm in ("glob.glob", "glob.iglob"):
            cfg.ext[nm] = globbed

        def walk(ii, a, k, n):
            c = contents(ii)
            return ListObj([TupleV([K("."), ListObj([K(x) for x, t in c if t == "dir"], ii.epoch), ListObj([K(x) for x, t in c if t == "file"], ii.epoch)])] + [TupleV([K("./" + x), ListObj([], ii.epoch), ListObj([], ii.epoch)]) for x, t in c if t == "dir"], ii.epoch)
        cfg.ext["os.walk"] = walk

        def inp(ii, a, k, n):
            r = list(ANSWERS)[ii.choose(len(ANSWERS), "answer")]
            ii.notes["answer"] = r
            ii.emit("ask", "input", {}, n)
            if r == "EOF":
                ii.raise_("EOFError", K("EOF"), n)
            return K(r)
        cfg.ext["builtins.input"] = inp

        def mh(ii, base, name, args, kwargs, node):
            b = show(freeze(base)) if not isinstance(base, Inst) else ""
            if name in ("mkdir", "write_text", "write_bytes", "touch") and isinstance(base, S):
                pt = [x for x in subterms(base) if isinstance(x, K) and isinstance(x.v, str)]
                ii.emit("create", "dir" if name == "mkdir" else "file", {"path": pt[-1] if pt else NONE}, node, raw=args[0] if args else None)
                return NONE
            if name in ("iterdir", "glob", "rglob") and isinstance(base, S) and base.op == "call" and str(base.a[0]).startswith("pathlib."):
                if name != "iterdir" and not (args and args[0] is K("*")):
                    return None
                return ListObj([dirent(ii, *x) for x in contents(ii)], ii.epoch)
            return None
        cfg.meth_hook = mh
        for nm in ("os.mkdir", "os.makedirs"):
            cfg.ext[nm] = lambda ii, a, k, n: (ii.emit("create", "dir", {"path": a[0]}, n), NONE)[1]
        n_files = 0
        for p in ctx.take(explore(i, cfg, entry, 200), "init " + lay):
            made = []
            for e in p.events:
                if e.kind == "create":
                    made.append((e.name, e.args["path"], p.events.index(e)))
                elif e.kind == "ext" and e.name == "builtins.open" and isinstance(e.args.get("mode"), K) and set(e.args["mode"].v) & set("wax+"):
                    made.append(("file", e.args["file"], p.events.index(e)))
            ask = [j for j, e in enumerate(p.events) if e.kind == "ask"]
            st = None
            if p.kind == "raise" and p.excname == "builtins.SystemExit":
                a = p.exc.attrs.get("args")
                st = a.items[0] if isinstance(a, TupleV) and a.items else NONE
            if lay == "nosuch":
                ctx.check(p.kind == "raise" and st in (None, K(1), K(2)), "layout", "unknown", "an unknown layout is accepted", p)
                ctx.check(not made, "layout", "unknown|created", "an unknown layout creates files", p)
                continue
            yes = ANSWERS.get(p.notes.get("answer"), None)
            if p.notes.get("full"):
                if yes is not True:
                    ctx.check(not made, "confirmed", lay, f"files are created in a directory that is not empty after the answer {p.notes.get('answer')!r}", p)
                    if "answer" in p.notes and p.notes["answer"] != "EOF":
                        ctx.check(p.kind == "raise" and st not in (NONE, K(0)), "refused", lay, "a refused initialisation doesn't end with an error", p)
                    continue
                if made:
                    ctx.check(min(j for _, _, j in made) > ask[0], "confirmed", "before|" + lay, "files are created before the confirmation", p)
            elif "full" not in p.notes and made:
                ctx.undec(f"init {lay}: the test for an empty directory was not recognised")
                continue
            ctx.check(st in (NONE, K(0)) if st is not None else p.kind == "return", "refused", "success|" + lay, f"a successful initialisation ends with {show(freeze(st)) if st is not None else p.excname}", p)
            dirs = set()
            for kind, path, j in made:
                if not isinstance(path, K) or not isinstance(path.v, str):
                    ctx.undec(f"init {lay}: created path {show(freeze(path))}")
                    continue
                parts = path.v.split("/")
                ctx.check(not path.v.startswith("/") and ".." not in parts, "inside", "outside|" + path.v, f"{path.v} is created outside of the current directory", p)
                par = "/".join(parts[:-1])
                ctx.check(not par or par in dirs, "inside", "parent|" + path.v, f"{path.v} is created before its directory", p)
                if kind == "dir":
                    for k in range(1, len(parts) + 1):
                        dirs.add("/".join(parts[:k]))
                n_files += kind == "file"
            ctx.check(bool(made), "layout", lay, f"the layout {lay} creates nothing", p)
        if lay != "nosuch" and not n_files:
            ctx.undec(f"init {lay}: no created file recognised")


# --------------------------------------------------------------------------
# C34: the generated files


def written_files(i, ctx, lay):
    """The files a layout writes in an empty directory: {path: constant text}, and its directories; None if that is not determined."""
    f = M.lookup(i, "fora.example_deploys.init_deploy_structure")
    cfg = Config()
    M.log_intercepts(cfg, i)
    for nm in ("os.scandir", "os.listdir", "glob.glob", "os.walk"):
        cfg.ext[nm] = lambda ii, a, k, n: ListObj([], ii.epoch)

    def mh(ii, base, name, args, kwargs, node):
        if name in ("iterdir", "glob") and isinstance(base, S):
            return ListObj([], ii.epoch)
        if name in ("write", "writelines") and isinstance(base, S):
            data = args[0]
            if name == "writelines":
                data = cat(*[freeze(x) for x in ii.iter_items(data)])
            ii.emit("data", name, {"to": base, "text": freeze(data)}, node)
            return NONE
        if name in ("mkdir", "write_text", "write_bytes") and isinstance(base, S):
            pt = [x.v for x in subterms(base) if isinstance(x, K) and isinstance(x.v, str)]
            if base.op == "call" and base.a[0] == "pathlib.Path" and len(base.a) == 2 and len(pt) == 1:
                ii.emit("node", name, {"path": K(pt[0]), "text": freeze(args[0]) if name != "mkdir" else NONE}, node)
                return NONE
        return None
    cfg.meth_hook = mh
    for nm in ("os.mkdir", "os.makedirs"):
        cfg.ext[nm] = lambda ii, a, k, n: (ii.emit("node", "mkdir", {"path": freeze(a[0]), "text": NONE}, n), NONE)[1]

    def entry(ii):
        M.set_globals(ii)
        return ii.call(f, [K(lay)], {}, None)
    ps = list(ctx.take(explore(i, cfg, entry, 16), "init " + lay))
    if len(ps) != 1:
        ctx.undec(f"init {lay}: {len(ps)} ways to create the layout")
        return None
    files, dirs, handle = {}, set(), {}
    for e in ps[0].events:
        if e.kind == "ext" and e.name == "builtins.open":
            pt, md = freeze(e.args["file"]), freeze(e.args["mode"])
            if not (isinstance(pt, K) and isinstance(md, K)):
                ctx.undec(f"init {lay}: file {show(pt)}")
                return None
            if set(md.v) & set("wax"):
                handle[e.res] = os.path.normpath(pt.v)
                files[handle[e.res]] = files.get(handle[e.res], "") if "a" in md.v else ""
        elif e.kind == "data" and e.args["to"] in handle:
            t = e.args["text"]
            t = cat(t) if isinstance(t, S) else t
            if not isinstance(t, K):
                ctx.undec(f"init {lay}: contents {show(t)[:100]}")
                return None
            files[handle[e.args["to"]]] += t.v if isinstance(t.v, str) else t.v.decode()
        elif e.kind == "node":
            pt, t = e.args["path"], e.args["text"]
            if not isinstance(pt, K) or not isinstance(t, K):
                ctx.undec(f"init {lay}: {show(pt)}")
                return None
            if e.name == "mkdir":
                dirs.add(os.path.normpath(pt.v))
            else:
                files[os.path.normpath(pt.v)] = t.v if isinstance(t.v, str) else t.v.decode()
    if not files or not any(files.values()):
        ctx.undec(f"init {lay}: no file contents recognised")
        return None
    return files, dirs, ps[0]


def _dotted(n):
    out = []
    while isinstance(n, ast.Attribute):
        out.append(n.attr)
        n = n.value
    return ".".join([n.id] + out[::-1]) if isinstance(n, ast.Name) else None


def generated(i, ctx):
    ctx.rule("valid", "Every Python file of a generated layout is valid Python.")
    ctx.rule("calls", "It calls only functions that the package has, with arguments these accept, and gives all required ones.")
    ctx.rule("names", "It uses only attributes of hosts and connections that exist, or variables the layout defines.")
    ctx.rule("complete", "The scripts, templates and host and group modules it refers to are part of the layout, and so are uploaded files of a directory which the layout creates.")
    ctx.rule("parameters", "A script is called with exactly the parameters it declares.")
    ctx.rule("inventory", "Each inventory of a layout defines a list of hosts with a known schema.")
    ctx.functions.add("fora.example_deploys.init_deploy_structure")
    offered = layouts_offered(i, ctx)
    host_cls, conn_cls = M.lookup(i, "fora.types.HostWrapper"), M.lookup(i, "fora.connection.Connection")

    def attrs_of(c):
        out, todo = set(), [c]
        while todo:
            k = todo.pop()
            if not isinstance(k, ClassObj):
                continue
            out |= set(k.vars)
            for st in ast.walk(k.node) if k.node is not None else ():
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    out.add(st.target.id)
                if isinstance(st, (ast.Assign, ast.AnnAssign)):
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            out.add(t.attr)
            todo += list(k.bases)
        return out
    host_attrs, conn_attrs = attrs_of(host_cls), attrs_of(conn_cls)
    for lay in offered:
        r = written_files(i, ctx, lay)
        if r is None:
            continue
        files, dirs, p = r
        trees = {}
        for f, text in files.items():
            if not f.endswith(".py"):
                continue
            try:
                trees[f] = ast.parse(text)
                ctx.check(True, "valid", f"{lay}/{f}", "", p)
            except SyntaxError as e:
                ctx.viol("valid", f"{lay}/{f}", f"{f} of the layout {lay} is not valid Python: {e}", p)
        defined = {t.id for f, tr in trees.items() for st in tr.body if isinstance(st, (ast.Assign, ast.AnnAssign)) for t in (st.targets if isinstance(st, ast.Assign) else [st.target]) if isinstance(t, ast.Name)}
        params = {}
        for f, tr in trees.items():
            for st in tr.body:
                if isinstance(st, ast.ClassDef) and any(_dotted(d) == "Params" for d in st.decorator_list):
                    params[f] = {x.target.id: x.value is not None for x in st.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)}
        for f, tr in trees.items():
            here = os.path.dirname(f)
            at = lambda s: os.path.normpath(os.path.join(here, s))
            names = {}
            for st in ast.walk(tr):
                if isinstance(st, ast.ImportFrom) and st.module and st.module.split(".")[0] == "fora":
                    for a in st.names:
                        names[a.asname or a.name] = st.module + "." + a.name
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.name.split(".")[0] == "fora":
                            names[a.asname or "fora"] = a.name if a.asname else "fora"
            for st in ast.walk(tr):
                if isinstance(st, ast.Attribute):
                    d = _dotted(st)
                    if d is None:
                        continue
                    head, *rest = d.split(".")
                    full = names.get(head, "").split(".") + rest if head in names else None
                    if not full:
                        continue
                    if full[:2] == ["fora", "host"] and len(full) > 2:
                        ok = full[2] in host_attrs or full[2] in defined
                        if ok and full[2] == "connection" and len(full) > 3:
                            ok = full[3] in conn_attrs
                        ctx.check(ok, "names", f"{lay}/{f}|{d}", f"{f} of the layout {lay} uses {d}, which doesn't exist", p)
                if not isinstance(st, ast.Call):
                    continue
                d = _dotted(st.func)
                head, *rest = (d or "").split(".")
                if head not in names or (names[head] + ".").startswith("fora.host."):
                    continue
                full = ".".join([names[head]] + rest)
                try:
                    i.module(".".join(full.split(".")[:-1]))
                    fn = M.lookup(i, full)
                except M.AnchorMissing:
                    ctx.viol("calls", f"{lay}/{f}|{full}", f"{f} of the layout {lay} calls {full}, which doesn't exist", p)
                    continue
                fn = M.unwrap(fn)
                if not isinstance(fn, FnV):
                    continue
                a = fn.node.args
                pos = [x.arg for x in a.posonlyargs + a.args]
                known = (set(pos) | {x.arg for x in a.kwonlyargs}) - {"op"}
                req = set(pos[:len(pos) - len(a.defaults)]) | {x.arg for x, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is None}
                given = pos[:len(st.args)] + [k.arg for k in st.keywords if k.arg]
                bad = [g for g in given if g not in known] if a.kwarg is None else []
                ctx.check(not bad and len(st.args) <= len(pos), "calls", f"{lay}/{f}|{full}|unknown", f"{f} of the layout {lay} calls {full} with the unknown arguments {bad}", p)
                ctx.check(req - {"op"} <= set(given) or any(k.arg is None for k in st.keywords), "calls", f"{lay}/{f}|{full}|missing", f"{f} of the layout {lay} calls {full} without {sorted(req - {'op'} - set(given))}", p)
                vals = dict(zip(pos, st.args), **{k.arg: k.value for k in st.keywords if k.arg})
                const = {k: v.value for k, v in vals.items() if isinstance(v, ast.Constant)}
                if full == "fora.operations.local.script" and isinstance(const.get("script"), str):
                    t = at(const["script"])
                    ctx.check(t in files, "complete", f"{lay}/{f}|{t}", f"{f} of the layout {lay} runs {t}, which is not created", p)
                    v = vals.get("params")
                    got = None
                    if v is None:
                        got = set()
                    elif isinstance(v, ast.Call) and _dotted(v.func) == "dict" and not v.args and all(k.arg for k in v.keywords):
                        got = {k.arg for k in v.keywords}
                    elif isinstance(v, ast.Dict) and all(isinstance(k, ast.Constant) for k in v.keys):
                        got = {k.value for k in v.keys}
                    if got is not None and t in trees:
                        want = params.get(t, {})
                        ctx.check(got <= set(want) and {k for k, dflt in want.items() if not dflt} <= got, "parameters", f"{lay}/{f}|{t}", f"{f} of the layout {lay} runs {t} with the parameters {sorted(got)}, which declares {sorted(want)}", p)
                elif full == "fora.operations.files.template" and isinstance(const.get("src"), str):
                    t = at(const["src"])
                    ctx.check(t in files, "complete", f"{lay}/{f}|{t}", f"{f} of the layout {lay} renders {t}, which is not created", p)
                elif full in ("fora.operations.files.upload", "fora.operations.files.upload_dir") and isinstance(const.get("src"), str):
                    t = at(const["src"])
                    ctx.check(t in files or t in dirs or os.path.dirname(t) not in dirs, "complete", f"{lay}/{f}|{t}", f"{f} of the layout {lay} uploads {t}, which is not created", p)
        invs = [f for f in trees if any(isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "hosts" for t in st.targets) for st in trees[f].body)]
        for f in invs:
            here = os.path.dirname(f)
            v = next(st.value for st in trees[f].body if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "hosts" for t in st.targets))
            if not ctx.check(isinstance(v, ast.List), "inventory", f"{lay}/{f}", f"{f} of the layout {lay} doesn't define a list of hosts", p):
                continue
            for h in v.elts:
                kw = {}
                if isinstance(h, ast.Constant):
                    kw = {"url": h.value}
                elif isinstance(h, ast.Call) and not h.args:
                    kw = {k.arg: k.value.value for k in h.keywords if isinstance(k.value, ast.Constant)}
                elif isinstance(h, ast.Dict):
                    kw = {k.value: x.value for k, x in zip(h.keys, h.values) if isinstance(k, ast.Constant) and isinstance(x, ast.Constant)}
                if isinstance(kw.get("file"), str):
                    t = os.path.normpath(os.path.join(here, kw["file"]))
                    ctx.check(t in files, "complete", f"{lay}/{f}|{t}", f"the inventory {f} of the layout {lay} refers to {t}, which is not created", p)
                if isinstance(kw.get("url"), str) and ":" in kw["url"]:
                    ctx.check(kw["url"].split(":")[0] in ("ssh", "local"), "inventory", f"{lay}/{f}|{kw['url']}", f"the inventory {f} of the layout {lay} uses the unknown schema {kw['url']}", p)


def layouts_offered(i, ctx):
    offered = []

    def entry0(ii):
        M.set_globals(ii)
        return ii.call(M.lookup(ii, "fora.main.main"), [], {"argv": M.sym("argv", Ty("list", False, None, T_STR))}, None)
    for p in ctx.take(explore(i, Config(), entry0, 60), "main"):
        for e in p.events:
            if e.kind == "meth" and e.name.endswith(".add_argument") and e.args.get("0") is K("--init"):
                ch = e.args.get("choices")
                its = ch.items if isinstance(ch, (ListObj, TupleV)) else [k for k, _ in ch.pairs] if isinstance(ch, DictObj) else []
                offered = [x.v for x in its if isinstance(x, K)]
    return offered or ["minimal", "flat", "dotfiles", "modular", "staging_prod"]
