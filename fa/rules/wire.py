"""Rules over the packet stream between the connector and the remote dispatcher."""
from __future__ import annotations
import struct as _struct

from ..terms import (K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT, T_BYTES, T_ANY)
from ..objects import Inst, ListObj, DictObj, TupleV, TypeX, freeze, cls_name, FnV, PyFn, BoundV, ClassObj, Ext, ModuleObj
from ..interp import explore, Config, AbsRaise
from ..ext import new_stream, bsegs, blen, bcat, canon_fmt
from .. import model as M
from ..model import AnchorMissing

TD = "fora.connectors.tunnel_dispatcher"


def td_module(i):
    return M.module(i, TD)


def packet_classes(i):
    m = td_module(i)
    out = {}
    for k, v in m.vars.items():
        if isinstance(v, ClassObj) and v.name == k and v.find("_is_packet")[1] is not None:
            out[k] = v
    if not out:
        raise AnchorMissing(TD + ": no packet classes")
    return out


def is_request(c):
    """Request packets have their own handler method."""
    f = c.vars.get("handle")
    return isinstance(f, FnV) and f.qualname.startswith(c.qualname + ".")


def fields_of(i, c):
    return [(nm, c.annotations) for nm, _, _ in i.dc_fields(c)]


def field_types(i, c):
    """field name -> type value as used by the serializer."""
    d = {k.v: v for k, v in c.annotations.pairs}
    return {nm: d.get(nm) for nm, _, _ in i.dc_fields(c)}


def is_opt(t):
    return isinstance(t, TypeX) and t.origin == "Union" and any(isinstance(a, Ext) and a.name.endswith("NoneType") for a in t.args)


def sym_of(i, t, name):
    """A symbolic value of the given declared type (several shapes by choice)."""
    if is_opt(t):
        if "$couple" in i.notes:
            # all optional fields given or none (the wire format of a field doesn't depend on other fields)
            if i.notes["$couple"] is None:
                i.notes["$couple"] = i.choose(2, "optionals given")
            given = i.notes["$couple"]
        else:
            given = i.choose(2, name + " given")
        if not given:
            return NONE
        inner = [a for a in t.args if not (isinstance(a, Ext) and a.name.endswith("NoneType"))][0]
        return sym_of(i, inner, name)
    if isinstance(t, TypeX) and t.origin == "list":
        n = i.choose(3, name + " length")
        return ListObj([sym_of(i, t.args[0], f"{name}{j}") for j in range(n)], i.epoch)
    if isinstance(t, PyFn) and t.name.startswith("NewType:"):
        return M.sym("f." + name, T_INT)
    if isinstance(t, Ext):
        k = t.name.split(".")[-1]
        if k in ("str", "bytes", "bool", "int"):
            return M.sym("f." + name, Ty(k))
    return M.sym("f." + name, T_ANY)


def sample(i, c, over=None):
    attrs = {}
    for nm, t in field_types(i, c).items():
        attrs[nm] = over[nm] if over and nm in over else sym_of(i, t, nm)
    return Inst(c, attrs, i.epoch)


def conn_with(i, rd=(), names=("in", "out")):
    cc = M.lookup(i, TD + ".Connection")
    rin, rout = new_stream(i, rd, names[0]), new_stream(i, [], names[1])
    return i.call(cc, [rin, rout], {}, None), rin, rout


def codec_hook(cfg):
    """Records the error handlers of string codecs on the wire."""
    def mh(ii, base, name, args, kwargs, node):
        if name in ("decode", "encode") and isinstance(base, S):
            err = args[1] if len(args) > 1 else kwargs.get("errors", K("strict"))
            enc = args[0] if args else kwargs.get("encoding", K("utf-8"))
            ii.emit("codec", name, {"errors": err, "encoding": enc, "of": base}, node)
            if name == "decode" and base.op == "meth" and base.a[0] == "encode":
                # same codec: identity on everything both error handlers accept
                e0 = base.a[2] if len(base.a) > 2 and not (isinstance(base.a[2], S) and base.a[2].op == "kw") else K("utf-8")
                for x in base.a[2:]:
                    if isinstance(x, S) and x.op == "kw" and x.a[0] == "encoding":
                        e0 = x.a[1]
                if isinstance(e0, K) and isinstance(enc, K) and _cn(e0.v) == _cn(enc.v):
                    return base.a[1]
                t = mk("recoded", base.a[1], e0, freeze(enc))
                TYPES[t] = T_STR
                return t
        return None
    cfg.meth_hook = mh


def _cn(s):
    return str(s).lower().replace("_", "-").replace("utf8", "utf-8")


def log_off(cfg):
    """Debug output of the dispatcher is not of interest here."""
    cfg.ext["sys.stderr.flush"] = lambda i, a, k, n: NONE


def wire_config(i):
    cfg = Config()
    M.log_intercepts(cfg, i)
    return cfg


# Values that occur in practice and have to survive (kernel interfaces): field -> witnesses
WITNESS = {
    ("PacketStatResult", "mode"): [0, 0o7777], ("PacketStatResult", "size"): [0, 1 << 42],
    ("PacketStatResult", "mtime"): [-1, -(1 << 60), 1 << 62], ("PacketStatResult", "ctime"): [-1, -(1 << 60), 1 << 62],
    ("PacketProcessCompleted", "returncode"): [-64, 255],
    ("PacketUserEntry", "uid"): [0, (1 << 32) - 2], ("PacketUserEntry", "gid"): [0, (1 << 32) - 2], ("PacketGroupEntry", "gid"): [0, (1 << 32) - 2],
    ("PacketOSError", "errno"): [0, 133],
}
LENGTH_WITNESS = [0, 1 << 33]
INT_RANGES = {c: (0, (1 << (8 * z)) - 1) if c.isupper() else (-(1 << (8 * z - 1)), (1 << (8 * z - 1)) - 1) for c, z in (("b", 1), ("B", 1), ("h", 2), ("H", 2), ("i", 4), ("I", 4), ("l", 4), ("L", 4), ("q", 8), ("Q", 8))}


def codec_roundtrip(i, ctx):
    ctx.rule("roundtrip", "Receiving what write_packet wrote for a packet yields a packet of the same type with equal fields (error packets raise the matching exception), and consumes exactly the written bytes.")
    ctx.rule("portable", "Every number on the wire has an explicit byte order and standard size, so both ends agree on any machine.")
    ctx.rule("range", "Every number format covers the values the field takes in practice (negative timestamps and return codes, large files, all ids, lengths beyond 4 GiB).")
    ctx.rule("string-lossless", "Strings are encoded and decoded with handlers that accept every string the operating system yields (surrogate escapes).")
    ctx.rule("flushed", "A written packet is flushed to the peer.")
    rp = M.lookup(i, TD + ".receive_packet")
    ctx.functions |= {TD + ".receive_packet", TD + ".Connection.write_packet"}
    for cname, c in packet_classes(i).items():
        ctx.functions.add(c.qualname)

        def entry(ii, c=c):
            M.set_globals(ii)
            p = sample(ii, c)
            ii.notes["sent"] = dict(p.attrs)
            conn, rin, rout = conn_with(ii)
            ii.call(ii.getattr_(conn, "write_packet", None), [p], {}, None)
            data = list(rout.attrs["$segs"].items)
            ii.notes["data"] = data
            ii.notes["nev"] = len(ii.events)
            conn2, rin2, _ = conn_with(ii, data, ("in", "out2"))
            req = None
            kw = {}
            if cname == "PacketInvalidField":
                # any request with the named field
                kw["request"] = Inst(Ext("types.SimpleNamespace"), {"$any": TRUE}, ii.epoch)
            try:
                return ii.call(rp, [conn2], kw, None)
            finally:
                ii.notes["rest"] = list(rin2.attrs["$segs"].items)
        cfg = wire_config(i)
        codec_hook(cfg)
        n = 0
        for p in ctx.take(explore(i, cfg, entry, 3000), cname):
            if "data" not in p.notes:
                # writing failed without any injected fault
                ctx.viol("roundtrip", cname + "|write", f"{cname} cannot be written: {p.excname if p.kind == 'raise' else p.kind}", p)
                continue
            n += 1
            out = [e for e in p.events[:p.notes["nev"]] if e.kind == "stream" and e.name.startswith("out.")]
            ctx.check(bool(out) and out[-1].name == "out.flush", "flushed", cname, "the packet is not flushed after it was written", p)
            mis = [e for e in p.events if e.kind == "stream" and e.name.endswith(".misread")]
            if mis:
                ctx.viol("roundtrip", f"{cname}|layout", f"the receiver of {cname} reads {show(mis[0].arg('count'))} bytes where the sender wrote {show(mis[0].arg('next'))}", p, mis[0].loc)
                continue
            ctx.check(not p.notes["rest"], "roundtrip", f"{cname}|rest", f"receiving {cname} leaves bytes of the packet in the stream", p)
            sent = p.notes["sent"]
            if cname == "PacketOSError":
                ok = p.kind == "raise" and p.excname.endswith("RemoteOSError")
                if ctx.check(ok, "roundtrip", cname, "a received PacketOSError doesn't raise RemoteOSError", p):
                    for f in ("errno", "strerror"):
                        got = p.facts.deep(freeze(p.exc.attrs.get(f, NONE)))
                        ctx.check(got is p.facts.deep(freeze(sent[f])), "roundtrip", f"{cname}.{f}", f"RemoteOSError.{f} is {show(got)}", p)
                    msg = p.exc.attrs.get("args")
                    ctx.check(isinstance(msg, TupleV) and any(x is sent["msg"] for a in msg.items for x in subterms(freeze(a))), "roundtrip", f"{cname}.msg", "the message of a remote error is lost", p)
            elif cname == "PacketInvalidField":
                ok = p.kind == "raise" and "builtins.ValueError" in p.exc_names
                if ctx.check(ok, "roundtrip", cname, "a received PacketInvalidField doesn't raise ValueError", p):
                    msg = p.exc.attrs.get("args")
                    ctx.check(isinstance(msg, TupleV) and any(x is sent["error_message"] for a in msg.items for x in subterms(freeze(a))), "roundtrip", f"{cname}.error_message", "the message of an invalid field is lost", p)
            else:
                if not ctx.check(p.kind == "return" and isinstance(p.value, Inst) and p.value.cls is c, "roundtrip", cname,
                                 f"receiving {cname} yields {cls_name(p.value.cls) if p.kind == 'return' and isinstance(p.value, Inst) else p.kind + ' ' + str(getattr(p, 'excname', ''))}", p):
                    continue
                for f, v in sent.items():
                    want, got = p.facts.deep(freeze(v)), p.facts.deep(freeze(p.value.attrs.get(f, NONE)))
                    ctx.check(_same(p, got, want), "roundtrip", f"{cname}.{f}", f"field '{f}' of {cname} is received as {show(got)} instead of {show(want)}", p)
            # formats
            for seg in p.notes["data"]:
                if isinstance(seg, S) and seg.op == "call" and seg.a[0] == "struct.pack":
                    f = canon_fmt(seg.a[1])
                    if f is None:
                        continue
                    ctx.check(f[0] in "<>", "portable", f, f"number format '{f}' depends on the machine", p)
                    wit = []
                    for v in seg.a[2:]:
                        if isinstance(v, S) and v.op == "len":
                            wit = LENGTH_WITNESS
                        for (cn, fn), w in WITNESS.items():
                            if cn == cname and sent.get(fn) is v:
                                wit = w
                    if len(f) == 2 and f[1] in INT_RANGES and wit:
                        lo, hi = INT_RANGES[f[1]]
                        for w in wit:
                            ctx.check(lo <= w <= hi, "range", f"{cname}|{f}|{show(seg.a[2])[:30]}", f"{cname}: the format '{f}' cannot hold the value {w} of {show(seg.a[2])}", p)
            for e in p.events:
                if e.kind == "codec":
                    err = e.arg("errors")
                    if isinstance(err, K):
                        ctx.check(err.v in ("surrogateescape", "surrogatepass"), "string-lossless", e.name, f"strings are {e.name}d with errors={err.v!r}, which doesn't accept all names of the operating system", p, e.loc)
        if not n:
            ctx.undec(f"{cname}: no completed round trip")


def error_reply(i, ctx, rule):
    """A received error packet raises the matching exception with the numbers and texts of the sender."""
    rp = M.lookup(i, TD + ".receive_packet")
    ctx.functions |= {TD + ".receive_packet"}
    for cname, want in (("PacketOSError", "RemoteOSError"), ("PacketInvalidField", "ValueError")):
        c = packet_classes(i).get(cname)
        if c is None:
            ctx.undecided.append(cname + " is gone")
            continue

        def entry(ii, c=c, cname=cname):
            M.set_globals(ii)
            p = sample(ii, c)
            ii.notes["sent"] = dict(p.attrs)
            conn, _, rout = conn_with(ii)
            ii.call(ii.getattr_(conn, "write_packet", None), [p], {}, None)
            ii.notes["wrote"] = True
            conn2, _, _ = conn_with(ii, list(rout.attrs["$segs"].items), ("in", "out2"))
            kw = {"request": Inst(Ext("types.SimpleNamespace"), {"$any": TRUE}, ii.epoch)} if cname == "PacketInvalidField" else {}
            return ii.call(rp, [conn2], kw, None)
        cfg = wire_config(i)
        codec_hook(cfg)
        for p in ctx.take(explore(i, cfg, entry, 3000), cname + " reply"):
            if "wrote" not in p.notes or any(e.kind == "stream" and e.name.endswith(".misread") for e in p.events):
                continue        # C15 judges the encoding
            sent = p.notes["sent"]
            ok = p.kind == "raise" and any(n.split(".")[-1] == want for n in p.exc_names)
            if ctx.check(ok, rule, cname, f"a received {cname} doesn't raise {want} but {p.excname if p.kind == "raise" else p.kind}", p) and cname == "PacketOSError":
                for f in ("errno", "strerror"):
                    got = p.facts.deep(freeze(p.exc.attrs.get(f, NONE)))
                    ctx.check(_same(p, got, p.facts.deep(freeze(sent[f]))), rule, f"{cname}.{f}", f"the {f} of a received error is {show(got)}", p)


def _same(p, got, want):
    if got is want:
        return True
    if isinstance(got, S) and isinstance(want, S) and got.op in ("list", "tuple") and want.op in ("list", "tuple"):
        return len(got.a) == len(want.a) and all(_same(p, a, b) for a, b in zip(got.a, want.a))
    return p.facts.iseq(got, want) is True


# --------------------------------------------------------------------------
# C18: broken streams


def _short_len(ii, t, count):
    """len(t) is smaller than count."""
    ln = mk("len", t)
    for a, v in ((mk("eq", ln, count), False), (mk("eq", count, ln), False), (mk("lt", ln, count), True), (mk("lt", count, ln), False), (truthy_atom(t), True)):
        try:
            ii.facts.assume(a, v)
        except M.Infeasible:
            pass


def _cut_hook(cfg, which):
    """The stream ends before or inside of the which-th read."""
    prev = cfg.meth_hook

    def mh(ii, o, name, args, kwargs, node):
        if prev is not None:
            r = prev(ii, o, name, args, kwargs, node)
            if r is not None:
                return r
        if isinstance(o, Inst) and isinstance(o.cls, Ext) and o.cls.name == "io.BytesIO" and o.attrs["$name"].v == "in" and name in ("read", "recv", "read1"):
            k = ii.notes.get("reads", 0)
            ii.notes["reads"] = k + 1
            if ii.notes.get("cut"):
                return K(b"")
            if k != which:
                return None
            want = ii.facts.simp(args[0]) if args and isinstance(args[0], S) else args[0] if args else K(-1)
            if want is K(0):
                return None
            ii.notes["cut"] = True
            if isinstance(want, S):
                ii.facts.assume(mk("eq", want, K(0)), False)
                ii.facts.assume(eq_atom(want, K(0)), False)
            if (isinstance(want, K) and want.v <= 1) or ii.choose(2, "partial read") == 0:
                return K(b"")
            t = ii.fresh("short", ty=T_BYTES)
            _short_len(ii, t, want)
            return t
        return None
    cfg.meth_hook = mh

    def unpack(ii, a, k, n):
        data = a[1]
        if (isinstance(data, K) and data.v == b"") or (isinstance(data, S) and data.op == "res" and data.a[0] == "short"):
            ii.raise_("struct.error", K("unpack requires a buffer of n bytes"), n)
        return ii.ext_models["struct.unpack"](ii, a, k, n)
    cfg.ext["struct.unpack"] = unpack


def broken_stream(i, ctx):
    ctx.rule("truncated", "If the stream ends before or inside a packet, receiving raises an IOError and never yields a packet.")
    ctx.rule("unknown-id", "A packet with an unknown id raises an IOError.")
    ctx.rule("atomic-write", "If a value of a packet cannot be encoded, nothing of the packet is sent.")
    ctx.rule("server-stops", "The dispatcher handles no request from a broken stream and exits with an error status.")
    rp = M.lookup(i, TD + ".receive_packet")
    ctx.functions |= {TD + ".receive_packet", TD + ".Connection.read", TD + ".Connection.write_packet"}
    for cname, c in packet_classes(i).items():
        which = 0
        while which < 40:
            def entry(ii, c=c):
                M.set_globals(ii)
                if ctx.tier == "quick":
                    ii.notes["$couple"] = None
                p = sample(ii, c)
                conn, rin, rout = conn_with(ii)
                ii.call(ii.getattr_(conn, "write_packet", None), [p], {}, None)
                conn2, rin2, _ = conn_with(ii, list(rout.attrs["$segs"].items), ("in", "out2"))
                ii.notes["start"] = True
                kw = {"request": Inst(Ext("types.SimpleNamespace"), {"$any": TRUE}, ii.epoch)} if cname == "PacketInvalidField" else {}
                return ii.call(rp, [conn2], kw, None)
            cfg = wire_config(i)
            _cut_hook(cfg, which)
            hit = 0
            for p in ctx.take(explore(i, cfg, entry, 3000), f"{cname} cut at read {which}"):
                if not p.notes.get("cut"):
                    continue
                hit += 1
                ctx.check(p.kind == "raise", "truncated", f"{cname}", f"a truncated {cname} is accepted as complete (read number {which})", p)
                if p.kind == "raise":
                    ctx.check("builtins.OSError" in p.exc_names, "truncated", f"{cname}|type", f"a truncated {cname} raises {p.excname} instead of an IOError", p)
            which += 1
            if not hit:
                break
    # unknown packet id
    ids = [K(n) for n in (1000, 4294967295, len(packet_classes(i)))]

    def entry2(ii):
        M.set_globals(ii)
        t = ids[ii.choose(len(ids), "id")]
        seg = mk("call", "struct.pack", K(">I"), t)
        conn, rin, _ = conn_with(ii, [K(_struct.pack(">I", t.v))])
        return ii.call(rp, [conn], {}, None)
    for p in ctx.take(explore(i, wire_config(i), entry2, 200), "unknown packet id"):
        ctx.check(p.kind == "raise" and "builtins.OSError" in p.exc_names, "unknown-id", "id", f"an unknown packet id is answered by {p.kind} {getattr(p, 'excname', '')}", p)
    # values that cannot be encoded
    for cname, c in packet_classes(i).items():
        if not i.dc_fields(c):
            continue

        def entry3(ii, c=c):
            M.set_globals(ii)
            if ctx.tier == "quick":
                ii.notes["$couple"] = None
            p = sample(ii, c)
            conn, rin, rout = conn_with(ii)
            try:
                ii.call(ii.getattr_(conn, "write_packet", None), [p], {}, None)
            finally:
                ii.notes["sent"] = list(rout.attrs["$segs"].items)
            return NONE
        cfg = wire_config(i)
        cfg.raises["struct.pack"] = ["struct.error"]
        cfg.raises["meth:encode"] = ["UnicodeEncodeError"]

        def mh(ii, base, name, args, kwargs, node):
            if name == "encode" and isinstance(base, S):
                ii.maybe_raise("meth:encode", node)
            return None
        cfg.meth_hook = mh
        for p in ctx.take(explore(i, cfg, entry3, 5000), cname + " with an unencodable value"):
            if not any(e.kind == "raised" for e in p.events):
                continue
            ctx.check(p.kind == "raise", "atomic-write", cname + "|lost", f"{cname}: a value that cannot be encoded is silently dropped", p)
            ctx.check(not p.notes.get("sent"), "atomic-write", cname, f"{cname}: a part of the packet was already sent when a later value could not be encoded", p)
    # the server's loop
    main = server_main(i)

    def entry4(ii):
        M.set_globals(ii)
        return ii.call(main, [], {}, None)
    cfg = wire_config(i)
    server_env(cfg, i, [])
    cfg.raises[TD + ".receive_packet"] = [_exc("OSError")]

    def rph(ii, bound, node, fn):
        k = ii.notes.get("received", 0)
        ii.notes["received"] = k + 1
        if k > 2:
            raise AbsRaise(ii.make_exc("SystemExit", K(0)), node, ii.loc(node))
        ii.emit("recv", "EOF", {}, node)
        raise AbsRaise(ii.make_exc("OSError", K("Unexpected EOF")), node, ii.loc(node))
    cfg.intercepts[TD + ".receive_packet"] = rph
    for p in ctx.take(explore(i, cfg, entry4, 200), "dispatcher loop"):
        n = sum(1 for e in p.events if e.kind == "recv")
        ctx.check(n == 1, "server-stops", "continues", "the dispatcher keeps receiving after the stream broke", p)
        ctx.check(p.kind == "raise" and p.excname.endswith("SystemExit") or p.kind == "raise", "server-stops", "exit", "the dispatcher ends normally after the stream broke", p)
        ctx.check(not any(e.kind == "reply" for e in p.events), "server-stops", "reply", "the dispatcher replies to a broken request", p)


# --------------------------------------------------------------------------
# The dispatcher


def _exc(name, **kw):
    return lambda ii: ii.make_exc(name, K("injected"), **kw)


def server_main(i):
    """The function run when the dispatcher is started as a script; a block of several statements becomes a function itself."""
    import ast
    m = td_module(i)
    if "$main" in i.__dict__:
        return i.__dict__["$main"]
    tested = {"__name__"}          # and names assigned from it
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id in tested for x in ast.walk(st.value)):
            tested |= {t.id for t in st.targets if isinstance(t, ast.Name)}
        if isinstance(st, ast.If) and any(isinstance(x, ast.Name) and x.id in tested for x in ast.walk(st.test)):
            body = st.body if not _negative(st.test) else st.orelse
            if not body or all(isinstance(x, ast.Pass) for x in body):
                continue
            fns = [m.vars[n.func.id] for n in ast.walk(ast.Module(body, [])) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and isinstance(m.vars.get(n.func.id), FnV)]
            if len(body) == 1 and len(fns) == 1:
                r = fns[0]
            else:
                names = sorted({x.id for y in body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
                d = ast.FunctionDef("__main__", ast.arguments([], [], None, [], [], None, []), ([ast.Global(names)] if names else []) + list(body), [], None)
                ast.copy_location(d, st)
                ast.fix_missing_locations(d)
                r = FnV(d, None, m, TD + ".__main__", "__main__", [], [], None, 0)
                r.is_gen = False
            i.__dict__["$main"] = r
            return r
    raise AnchorMissing(TD + ": no main function")


def _negative(test):
    import ast
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return not _negative(test.operand)
    return isinstance(test, ast.Compare) and isinstance(test.ops[0], ast.NotEq)


def server_env(cfg, i, requests):
    """Feeds the given requests (makers) to the dispatcher loop, then a normal end of the stream; records the replies."""
    def rph(ii, bound, node, fn):
        k = ii.notes.get("received", 0)
        ii.notes["received"] = k + 1
        if k < len(requests):
            p = requests[k](ii)
            ii.notes["request"] = p
            ii.emit("recv", p.cls.name, {}, node)
            return p
        ii.emit("recv", "EOF", {}, node)
        raise AbsRaise(ii.make_exc("OSError", K("Unexpected EOF")), node, ii.loc(node))
    cfg.intercepts[TD + ".receive_packet"] = rph

    def wph(ii, bound, node, fn):
        p = bound.get("packet")
        ii.emit("reply", p.cls.name if isinstance(p, Inst) else "?", {"packet": freeze(p)}, node, raw=p)
        return NONE
    cfg.intercepts[TD + ".Connection.write_packet"] = wph
