"""Rules over inventories: declarations, group order, variable propagation, host selection."""
from __future__ import annotations

import itertools
import os

from ..terms import (K, S, NONE, TRUE, FALSE, mk, cat, show, subterms, truthy_atom, eq_atom, none_atom, typeof, TYPES, Ty, T_STR, T_BOOL, T_INT, T_BYTES, T_ANY)
from ..objects import Inst, ListObj, SetObj, DictObj, TupleV, freeze, cls_name, FnV, PyFn, BoundV, ClassObj, Ext, ModuleObj
from ..interp import explore, Config, AbsRaise
from .. import model as M

BASE = "/inv"
INV = BASE + "/inventory.py"
EARLY = "host.vars"


def val(i, name):
    return M.sym("value." + name, T_STR)


def tov(i, v):
    """Host and group declarations given as Python data."""
    if isinstance(v, dict):
        return DictObj([(K(a), tov(i, b)) for a, b in v.items()], i.epoch)
    if isinstance(v, (list, tuple)):
        return ListObj([tov(i, x) for x in v], i.epoch)
    if isinstance(v, Decl):
        return i.call(M.lookup(i, "fora.inventory_wrapper." + v.cls), [], {k: tov(i, x) for k, x in v.kw.items()}, None)
    if isinstance(v, (str, int, bytes)) or v is None:
        return K(v)
    return v


class Decl:
    """A declaration given as an object of the package."""

    def __init__(self, cls, **kw):
        self.cls, self.kw = cls, kw


class World:
    """Files with the abstract effect of their modules; the inventory file and what it defines."""

    def __init__(self, hosts=None, groups=None, glob=(), files=None, inventory=None, order="all"):
        self.hosts, self.groups, self.glob, self.order = hosts, groups, dict(glob), order
        self.files = dict(files or {})
        self.links = {}
        if inventory is None:
            def inventory(ii, mod):
                if self.hosts is not None:
                    ii.setattr_(mod, "hosts", tov(ii, self.hosts), None)
                if self.groups is not None:
                    ii.setattr_(mod, "groups", tov(ii, self.groups), None)
                for k, v in self.glob.items():
                    ii.setattr_(mod, k, v(ii) if callable(v) else v, None)
        self.files[INV] = inventory


ORDERS = (lambda x: x, lambda x: x[::-1], lambda x: sorted(x, key=repr), lambda x: sorted(x, key=repr)[::-1])


def config(i, w, distinct=()):
    cfg = Config()
    cfg.dunder = True
    cfg.distinct = set(distinct)
    M.log_intercepts(cfg, i)

    def const(v, what):
        if not isinstance(v, K):
            from ..interp import Unsupported
            raise Unsupported(what)
        return v.v

    def resolved(ii, v, what="path"):
        """The file a path names, relative to the tracked working directory."""
        x = const(v, what)
        cwd = ii.notes.get("cwd")
        x = os.path.normpath(os.path.join(cwd.v if isinstance(cwd, K) else BASE, x))
        return w.links.get(x, x)

    def loader(ii, a, k, n):
        nm = a[0] if a else k.get("fullname")
        f = a[1] if len(a) > 1 else k.get("path")
        path = resolved(ii, f, "module file")
        ld = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": nm, "path": f}, ii.epoch)

        def run(i2, aa, kk, nn):
            m = aa[0] if aa else kk["module"]
            i2.emit("module", path, {"module": m}, nn)
            body = w.files.get(path)
            if body is None:
                i2.raise_("FileNotFoundError", K(path), nn)
            fm = i2.modules["fora"]
            i2.notes.setdefault("globals", []).append((path, m, fm.vars.get("group"), fm.vars.get("host")))
            body(i2, m)
            return NONE
        ld.attrs["exec_module"] = PyFn("exec_module", run)
        ld.attrs["create_module"] = PyFn("create_module", lambda i2, aa, kk, nn: NONE)
        return ld
    cfg.ext["importlib.machinery.SourceFileLoader"] = loader

    def spec(ii, a, k, n):
        ld = a[1] if len(a) > 1 else k.get("loader")
        return Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": a[0], "loader": ld, "origin": ii.getattr_(ld, "path", n)}, ii.epoch)
    cfg.ext["importlib.util.spec_from_loader"] = spec

    def spec_file(ii, a, k, n):
        ld = k["loader"] if "loader" in k else loader(ii, [a[0], a[1] if len(a) > 1 else k["location"]], {}, n)
        return spec(ii, [a[0], ld], {}, n)
    cfg.ext["importlib.util.spec_from_file_location"] = spec_file

    def mfs(ii, a, k, n):
        s = a[0]
        return Inst(Ext("types.ModuleType"), {"$ns": TRUE, "__name__": ii.getattr_(s, "name", n), "__file__": ii.getattr_(s, "origin", n), "__spec__": s, "__loader__": ii.getattr_(s, "loader", n)}, ii.epoch)
    cfg.ext["importlib.util.module_from_spec"] = mfs
    exists = lambda ii, a, k, n: K(resolved(ii, a[0]) in w.files) if isinstance(a[0], K) and isinstance(a[0].v, str) else None
    cfg.ext["os.path.exists"] = exists
    cfg.ext["os.path.isfile"] = exists
    cfg.ext["os.path.realpath"] = lambda ii, a, k, n: K(resolved(ii, a[0]))

    def abspath(ii, a, k, n):
        cwd = ii.notes.get("cwd")
        return K(os.path.normpath(os.path.join(cwd.v if isinstance(cwd, K) else BASE, const(a[0], "path"))))
    cfg.ext["os.path.abspath"] = abspath
    cfg.ext["os.path.relpath"] = lambda ii, a, k, n: K(os.path.relpath(abspath(ii, a, k, n).v, resolved(ii, k.get("start") or (a[1] if len(a) > 1 else K(".")))))

    def samefile(ii, a, k, n):
        x, y = resolved(ii, a[0]), resolved(ii, a[1])
        for z in (x, y):
            if z not in w.files:
                ii.raise_("FileNotFoundError", K(z), n)
        return K(x == y)
    cfg.ext["os.path.samefile"] = samefile

    def order(ii, items):
        if len(items) < 2 or w.order is None:
            return items
        o = ii.notes.get("order")
        if o is None:
            o = ii.notes["order"] = ii.choose(len(ORDERS), "set order")
        return ORDERS[o](list(items))
    cfg.set_order = order
    return cfg


def load(ii, arg=INV):
    m = ii.modules["fora"]
    ii.touch(m)
    M.set_globals(ii)
    m.vars["inventory"] = m.vars["host"] = m.vars["script"] = m.vars["group"] = NONE
    ii.call(M.lookup(ii, "fora.loader.load_inventory"), [K(arg) if isinstance(arg, str) else arg], {}, None)
    inv = m.vars["inventory"]
    ii.notes["inv"] = inv
    lh = ii.getattr_(inv, "loaded_hosts", None)
    hosts = {}
    for k, h in lh.pairs:
        hosts[k.v] = h
    ii.notes["hosts"] = hosts
    return inv


def hostvars(ii, h, names):
    from ..ext import _hasattr
    r = {}
    for nm in names:
        try:
            v = ii.getattr_(h, nm, None)
            r[nm] = (v, freeze(v))
        except AbsRaise as e:
            if "builtins.AttributeError" not in ii.class_names(e.exc.cls):
                raise
            r[nm] = None
    return r


def defining(**vs):
    """Body of a module that assigns the given variables."""
    def body(ii, mod):
        for k, v in vs.items():
            ii.setattr_(mod, k, v(ii, mod) if callable(v) else v, None)
    return body


def gfile(g):
    return f"{BASE}/groups/{g}.py"


def hfile(h):
    return f"{BASE}/hosts/{h}.py"


def mod_order(p):
    return [e.name for e in p.events if e.kind == "module"]


# --------------------------------------------------------------------------
# C24: order of the modules of a host


def graphs(names, thorough):
    """All constraint graphs over the names, as sets of edges (a before b)."""
    pairs = [(a, b) for a in names for b in names if a != b]
    for bits in range(1 << len(pairs)):
        yield [e for j, e in enumerate(pairs) if bits >> j & 1]


def closure(edges):
    r = set(edges)
    while True:
        add = {(a, d) for a, b in r for c, d in r if b == c} - r
        if not add:
            return r
        r |= add


def decls(names, edges, style):
    """Group declarations that express the edges by 'after', by 'before', or by both alternately; some as plain names and some as objects."""
    after = {g: [] for g in names}
    before = {g: [] for g in names}
    for j, (a, b) in enumerate(edges):
        if style == "after" or (style == "mixed" and j % 2):
            after[b].append(a)
        else:
            before[a].append(b)
    out = []
    for j, g in enumerate(names):
        kw = {"name": g}
        if after[g]:
            kw["after"] = after[g]
        if before[g]:
            kw["before"] = before[g]
        if len(kw) == 1 and style != "mixed":
            out.append(g)
        elif style == "mixed" and j % 2:
            out.append(Decl("GroupDeclaration", **kw))
        else:
            out.append(kw)
    return out


def load_order(i, ctx):
    ctx.rule("complete", "Loading a host loads each of its groups, 'all' and its own module exactly once, and no other group.")
    ctx.rule("order", "A group is loaded after all groups it is (directly or transitively, also by way of groups the host is not in) declared to come after.")
    ctx.rule("all-first", "The 'all' group is loaded before all other groups, and the host's module after all groups.")
    ctx.rule("accepted", "An inventory without dependency cycles is accepted, and one with a cycle is rejected before any group or host is loaded.")
    ctx.functions |= {"fora.inventory_wrapper.InventoryWrapper.load", "fora.loader.load_inventory"}
    names = ("g1", "g2", "g3") if ctx.tier != "thorough" else ("g1", "g2", "g3", "g4")
    combos = 0
    for n_e, edges in enumerate(graphs(names, ctx.tier == "thorough")):
        if ctx.tier == "thorough" and len(edges) > 5:
            continue
        cl = closure(edges)
        cyc = any(a == b for a, b in cl)
        style = ("after", "before", "mixed")[n_e % 3]
        member = [names, (names[0], names[-1]), (names[1],)][n_e % 3] if not cyc else names
        if cyc and ctx.tier != "thorough" and len(edges) > 4:
            continue
        combos += 1
        subs = [names, (names[0], names[-1])] if not cyc else [names]
        for member in subs:
            w = World(hosts=[{"url": "local:h", "groups": list(member)}], groups=decls(names, edges, style),
                      files={**{gfile(g): defining() for g in names}, gfile("all"): defining(), hfile("h"): defining()})
            check_order(i, ctx, w, {"h": set(member)}, cl, cyc, f"{style}: {', '.join(a + '<' + b for a, b in edges) or 'no constraints'}; host in {', '.join(member)}")
    for lab, gs, edges, style, members in larger_graphs(ctx.tier == "thorough"):
        cl = closure(edges)
        cyc = any(a == b for a, b in cl)
        w = World(hosts=[{"url": f"local:h{k}", "groups": list(m)} for k, m in enumerate(members)], groups=decls(gs, edges, style),
                  files={**{gfile(g): defining() for g in gs}, gfile("all"): defining(), **{hfile(f"h{k}"): defining() for k in range(len(members))}})
        check_order(i, ctx, w, {f"h{k}": set(m) for k, m in enumerate(members)}, cl, cyc, lab)
    # groups derived from the hosts, declarations of all kinds, explicit files, several hosts
    more = [
        (World(hosts=["local:h"], files={gfile("all"): defining(), hfile("h"): defining()}), {"h": set()}, set()),
        (World(hosts=[{"url": "local:h", "groups": ["g1", "g2"]}, Decl("HostDeclaration", url="local:k", groups=["g2"]), "local:m"],
               files={**{gfile(g): defining() for g in ("g1", "g2", "all")}, **{hfile(h): defining() for h in "hkm"}}), {"h": {"g1", "g2"}, "k": {"g2"}, "m": set()}, set()),
        (World(hosts=[{"url": "local:h", "groups": ["g1", "g2", "g1", "all"]}], groups=[{"name": "all"}, "g1", {"name": "g2", "before": ["g1", "g1"]}],
               files={**{gfile(g): defining() for g in ("g1", "g2", "all")}, hfile("h"): defining()}), {"h": {"g1", "g2"}}, {("g2", "g1")}),
        (World(hosts=[{"url": "local:h", "groups": ["g1"]}], groups=[{"name": "all", "before": ["g1"]}, {"name": "g1", "after": ["all"]}],
               files={gfile("g1"): defining(), gfile("all"): defining(), hfile("h"): defining()}), {"h": {"g1"}}, set()),
        (World(hosts=[{"name": "h", "url": "local:x", "groups": ["g1", "g2"], "file": "other.py"}], groups=[{"name": "g1", "file": "sub/one.py", "after": ["g2"]}, "g2"],
               files={BASE + "/sub/one.py": defining(), gfile("g2"): defining(), BASE + "/other.py": defining(), hfile("h"): defining(), gfile("g1"): defining()}), {"h": {"g1", "g2"}}, {("g2", "g1")}),
    ]
    for j, (w, member, cl) in enumerate(more):
        alias = {BASE + "/sub/one.py": gfile("g1"), BASE + "/other.py": hfile("h")} if j == 4 else {}
        check_order(i, ctx, w, member, cl, False, f"declaration form {j}", alias)


def larger_graphs(thorough):
    """Shapes beyond the exhaustive bound: long chains, groups only used as intermediate steps, lattices, pseudo-random graphs."""
    chain = [f"c{k:02}" for k in range(16)]
    names = chain[5:] + chain[:5]
    ch = list(zip(chain, chain[1:]))
    yield "chain of 16 groups", names, ch, "after", [chain[::-1], (chain[0], chain[15]), (chain[3], chain[9], chain[1])]
    yield "chain of 16 groups, declared by before", names, ch, "before", [(chain[0], chain[15], chain[8])]
    yield "cycle of 16 groups", names, ch + [(chain[15], chain[0])], "mixed", [chain[:2]]
    for style in ("after", "before", "mixed"):
        yield f"steps nobody is in ({style})", ["z", "m1", "m2", "a", "b"], [("z", "m1"), ("m1", "m2"), ("m2", "a"), ("b", "z")], style, [("a", "z"), ("a", "b"), ("b", "z", "a")]
        yield f"opposed steps nobody is in ({style})", ["a", "m", "z"], [("z", "m"), ("m", "a")], style, [("a", "z")]
        lat = [f"l{r}{c}" for r in range(3) for c in range(3)]
        le = [(f"l{r}{c}", f"l{r2}{c2}") for r in range(3) for c in range(3) for r2, c2 in ((r + 1, c), (r, c + 1)) if r2 < 3 and c2 < 3]
        yield f"lattice ({style})", lat[::-1], le, style, [lat, ("l00", "l22"), ("l02", "l20", "l22")]
    seed = 12345
    for n in range(60 if thorough else 8):
        gs = [f"r{k}" for k in range(7)]
        edges = []
        for a in range(7):
            for b in range(a + 1, 7):
                seed = (seed * 1103515245 + 12345) & 0x7fffffff
                if seed >> 16 & 3 == 0:
                    edges.append((gs[b], gs[a]) if n % 2 else (gs[a], gs[b]))
        if n % 4 == 3 and edges:
            edges.append((edges[0][1], edges[0][0]))
        yield f"graph {n}: {edges}", gs, edges, ("after", "before", "mixed")[n % 3], [gs, gs[::2], gs[1::3]]


def check_order(i, ctx, w, member, cl, cyc, lab, alias=None):
    alias = alias or {}
    for p in ctx.take(explore(i, config(i, w), lambda ii: (load(ii), NONE)[1], 64), lab):
        mods = [m for m in mod_order(p)]
        if cyc:
            ctx.check(p.kind == "raise", "accepted", "cycle", f"a dependency cycle is not reported ({lab})", p)
            ctx.check(mods == [INV], "accepted", "cycle|loaded", f"modules are loaded although the groups have a dependency cycle ({lab})", p)
            continue
        if p.kind == "raise":
            ctx.viol("accepted", "acyclic", f"an inventory without dependency cycle is rejected with {p.excname}: {show(freeze(p.exc.attrs.get('args', NONE)))} ({lab})", p)
            continue
        mods = mods[1:]
        for h, gs in member.items():
            want = {gfile(g) for g in gs | {"all"} if gfile(g) in w.files} | {hfile(h)}
            if hfile(h) not in [alias.get(m, m) for m in mods]:
                ctx.viol("complete", "host", f"the module of host {h} is not loaded ({lab})", p)
                break
            k = [alias.get(m, m) for m in mods].index(hfile(h)) + 1
            mine, mods = mods[:k], mods[k:]
            raw = mine
            mine = [alias.get(m, m) for m in mine]
            ctx.check(sorted(mine) == sorted(want), "complete", "set", f"host {h} loads {mine} instead of its groups, 'all' and itself once each ({lab})", p)
            for x, y in itertools.combinations(mine, 2):
                gx, gy = x.split("/")[-1][:-3], y.split("/")[-1][:-3]
                ctx.check((gy, gx) not in cl, "order", "order", f"group {gx} is loaded before {gy}, which it depends on ({lab})", p)
            if gfile("all") in mine:
                ctx.check(mine[0] == gfile("all"), "all-first", "all", f"{mine[0]} is loaded before the group 'all' ({lab})", p)
            if alias:
                ctx.check(all(alias.get(m, m) == m or m in alias for m in raw), "complete", "file", "", p)
                ctx.check(all((k not in raw) for k in alias.values()), "complete", "file", f"a module file other than the explicitly declared one is loaded ({lab})", p)
        else:
            ctx.check(not mods, "complete", "extra", f"modules are loaded that belong to no host: {mods} ({lab})", p)


# --------------------------------------------------------------------------
# C25: ambiguous overrides


def redef(i, *gs):
    return {gfile(g): defining(x=val(i, g)) for g in gs}


def append(name, v):
    def f(ii, mod):
        lst = ii.getattr_(mod, name, None)
        ii.call(ii.getattr_(lst, "append", None), [v], {}, None)
        return lst
    return f


def ambiguity(i, ctx):
    ctx.rule("ambiguous", "If two groups of a host define the same variable and neither depends on the other, loading fails with an error.")
    ctx.rule("ordered", "If one of the groups that define a variable (directly or transitively) depends on the others, its value is accepted and wins.")
    ctx.rule("modify", "Groups may extend the same object in place in any order.")
    ctx.rule("mixed", "Redefining a variable which an unrelated group extends in place is ambiguous, too.")
    ctx.rule("host", "A host's own module may redefine everything.")
    ctx.functions |= {"fora.inventory_wrapper.InventoryWrapper.load", "fora.inventory_wrapper.InventoryWrapper.instanciate_host"}
    names = ("g1", "g2", "g3")
    distinct = {val(i, n) for n in ("g1", "g2", "g3", "g4", "p", "n", "all", "host", "q", "m", "x", "y", "z")}
    cases = []
    for edges in graphs(names, False):
        cl = closure(edges)
        if any(a == b for a, b in cl):
            continue
        for pair in itertools.combinations(names, 2):
            cases.append((names, edges, pair))
        if ctx.tier == "thorough":
            cases.append((names, edges, names))
    g4 = ("g1", "g2", "g3", "g4")
    chains = [
        (("p", "q", "m", "n"), [("p", "q"), ("m", "n")], ("p", "n")),                      # parallel chains, different ranks
        (("p", "q", "m", "n"), [("p", "q"), ("m", "n")], ("q", "m")),
        (("p", "n", "x", "y", "z"), [("p", "n"), ("x", "y"), ("y", "z")], ("p", "n")),     # slack next to a longer chain
        (("p", "n", "x", "y", "z"), [("p", "n"), ("x", "y"), ("y", "z")], ("n", "x")),
        (("p", "n", "x", "y", "z"), [("p", "n"), ("x", "y"), ("y", "z")], ("p", "z")),
        (("p", "q", "n"), [("p", "q"), ("q", "n")], ("p", "n")),                           # transitive by way of a group the host is not in
    ]
    cases += chains
    if ctx.tier == "thorough":
        for edges in graphs(g4, False):
            if len(edges) == 3 and not any(a == b for a, b in closure(edges)):
                for pair in itertools.combinations(g4, 2):
                    cases.append((g4, edges, pair))
    for j, (gs, edges, who) in enumerate(cases):
        cl = closure(edges)
        for first_none in ((False, True) if j % 5 == 0 or len(gs) > 3 else (False,)):
            files = redef(i, *who)
            if first_none:
                files[gfile(who[0])] = defining(x=NONE)
            w = World(hosts=[{"url": "local:h", "groups": list(who)}], groups=decls(gs, edges, "mixed" if j % 2 else "after"), files=files)
            lab = f"{', '.join(a + '<' + b for a, b in edges) or 'no constraints'}; {', '.join(who)} define it" + (", the first as None" if first_none else "")
            run_ambiguity(i, ctx, w, distinct, who, cl, lab, none=who[0] if first_none else None)
    # in-place modifications
    base = lambda: defining(x=lambda ii, m: ListObj([val(ii, "all")], ii.epoch))
    gfs = {gfile("all"): base(), gfile("g1"): defining(x=append("x", val(i, "g1"))), gfile("g2"): defining(x=append("x", val(i, "g2")))}
    w = World(hosts=[{"url": "local:h", "groups": ["g1", "g2"]}], files=gfs)
    for p in ctx.take(explore(i, config(i, w, distinct), final_x, 64), "in-place"):
        if ctx.check(p.kind == "return", "modify", "rejected", f"extending a list in two unrelated groups is rejected with {p.excname if p.kind == 'raise' else ''}", p):
            x = p.notes["x"]
            got = set(x[1].a) if x is not None and isinstance(x[1], S) else set()
            ctx.check(got == {val(i, n) for n in ("all", "g1", "g2")}, "modify", "value", f"the list extended by two groups is {show(x[1]) if x else None}", p)
    w = World(hosts=[{"url": "local:h", "groups": ["g1", "g2"]}], files={**gfs, gfile("g2"): defining(x=lambda ii, m: ListObj([val(ii, "g2")], ii.epoch))})
    for p in ctx.take(explore(i, config(i, w, distinct), final_x, 64), "in-place and redefined"):
        ctx.check(p.kind == "raise", "mixed", "unrelated", "redefining a list that an unrelated group extends is accepted", p)
    w = World(hosts=[{"url": "local:h", "groups": ["g1", "g2"]}], groups=["g1", {"name": "g2", "after": ["g1"]}], files={**gfs, gfile("g2"): defining(x=lambda ii, m: ListObj([val(ii, "g2")], ii.epoch))})
    for p in ctx.take(explore(i, config(i, w, distinct), final_x, 64), "in-place and redefined in order"):
        ctx.check(p.kind == "return" and p.notes["x"] and show(p.notes["x"][1]) == show(freeze(ListObj([val(i, "g2")]))), "ordered", "list", "redefining a list of a group it depends on is not accepted", p)
    w = World(hosts=[{"url": "local:h", "groups": ["g1", "g2", "g3"]}], groups=["g1", "g2", {"name": "g3", "after": ["g2"]}], files={**gfs, gfile("g3"): defining(x=lambda ii, m: ListObj([val(ii, "g3")], ii.epoch))})
    for p in ctx.take(explore(i, config(i, w, distinct), final_x, 64), "two in-place, one redefined"):
        ctx.check(p.kind == "raise", "mixed", "unrelated of several", "redefining a list that two groups extend is accepted although the group depends on only one of them", p)
    w = World(hosts=[{"url": "local:h", "groups": ["g1", "g2", "g3"]}], groups=["g1", "g2", {"name": "g3", "after": ["g2", "g1"]}], files={**gfs, gfile("g3"): defining(x=lambda ii, m: ListObj([val(ii, "g3")], ii.epoch))})
    for p in ctx.take(explore(i, config(i, w, distinct), final_x, 64), "two in-place, one redefined after both"):
        ctx.check(p.kind == "return" and p.notes["x"] and show(p.notes["x"][1]) == show(freeze(ListObj([val(i, "g3")]))), "ordered", "list of both", "redefining a list that two groups extend is not accepted although the group depends on both", p)
    # host module, 'all' and declared variables
    w = World(hosts=[{"url": "local:h", "groups": ["g1"], "vars": {"x": val(i, "n")}}], glob={"x": val(i, "m")},
              files={gfile("all"): defining(x=val(i, "all")), gfile("g1"): defining(x=val(i, "g1")), hfile("h"): defining(x=val(i, "host"))})
    for p in ctx.take(explore(i, config(i, w, distinct), final_x, 64), "host module"):
        ctx.check(p.kind == "return" and p.notes["x"] and p.notes["x"][0] is val(i, "host"), "host", "host", "a host's module can't redefine a variable of its groups", p)


def final_x(ii):
    load(ii)
    ii.notes["x"] = hostvars(ii, ii.notes["hosts"]["h"], ["x"])["x"]
    return NONE


def run_ambiguity(i, ctx, w, distinct, who, cl, lab, none=None):
    amb = any((a, b) not in cl and (b, a) not in cl for a, b in itertools.combinations(who, 2))
    for p in ctx.take(explore(i, config(i, w, distinct), final_x, 64), lab):
        if amb:
            if ctx.check(p.kind == "raise", "ambiguous", "none" if none else "accepted", f"two definitions of a variable in groups with arbitrary order are accepted ({lab})", p):
                ctx.check("builtins.ValueError" in p.exc_names or any(x.endswith(".FatalError") for x in p.exc_names), "ambiguous", "type", f"an ambiguous variable raises {p.excname} ({lab})", p)
            continue
        if p.kind == "raise":
            ctx.viol("ordered", "rejected", f"a redefinition by a group that depends on the previous one is rejected with {p.excname} ({lab})", p)
            continue
        last = [g for g in who if all((o, g) in cl for o in who if o != g)]
        if last:
            want = NONE if last[0] == none else val(i, last[0])
            x = p.notes["x"]
            ctx.check(x is not None and x[0] is want, "ordered", "value", f"the value is {show(x[1]) if x else 'missing'} instead of that of {last[0]} ({lab})", p)


# --------------------------------------------------------------------------
# C26: what a host's variables are


LEVELS = ("inventory", "decl", "all", "g1", "g2", "host")


def variables(i, ctx):
    ctx.rule("precedence", "The value of a host's variable is that of the last of: inventory, host declaration, 'all', the groups in order, host module, which defines it.")
    ctx.rule("visible", "A module sees the values of everything of lower precedence while it is executed.")
    ctx.rule("isolated", "What the modules define or modify for one host doesn't show in another host.")
    ctx.rule("exact", "A host has no other variables than those defined for it: names starting with an underscore and imported modules are not passed on, and fora's own bookkeeping isn't either.")
    ctx.rule("identity", "Host and group modules see themselves as fora.host and fora.group while they are executed, with their own name, url and groups, and neither stays set afterwards.")
    ctx.rule("attribute", "A variable can be read and changed as an attribute of the host, and falls back to the variables of the active script only if the host doesn't define it.")
    ctx.functions |= {"fora.inventory_wrapper.InventoryWrapper.load", "fora.types.HostWrapper", "fora.types.ModuleWrapper"}
    masks = range(1, 1 << len(LEVELS))
    V = lambda lv, m: M.sym(f"value.{lv}.{m}", T_STR)
    by = {lv: {f"x{m}": V(lv, m) for m in masks if m >> j & 1} for j, lv in enumerate(LEVELS)}
    distinct = {v for d in by.values() for v in d.values()} | {val(i, n) for n in ("all", "g1", "g2", "host", "script", "set")}
    seen = {}

    def body(lv, extra=None):
        def f(ii, mod):
            j = LEVELS.index(lv)
            ii.notes.setdefault("seen", {})[lv] = {k: _get(ii, mod, k) for k in [f"x{m}" for m in masks] + ["_hidden", "imported", "lst"]}
            for k, v in by[lv].items():
                ii.setattr_(mod, k, v, None)
            ii.setattr_(mod, "_hidden", K(lv), None)
            ii.setattr_(mod, "imported", Inst(Ext("types.ModuleType"), {"$ns": TRUE, "__name__": K("os")}, ii.epoch), None)
            if extra:
                extra(ii, mod)
        return f
    empty = {"none": NONE, "zero": K(0), "blank": K(""), "false": FALSE}
    EMPTY = {f"{n}_{lv}": v for n, v in empty.items() for lv in LEVELS}
    of = lambda lv: {k: v for k, v in EMPTY.items() if k.endswith("_" + lv)}

    def mklist(ii, mod):
        ii.setattr_(mod, "lst", ListObj([val(ii, "all")], ii.epoch), None)
        ii.setattr_(mod, "connector", val(ii, "all"), None)
        for k, v in of("all").items():
            ii.setattr_(mod, k, v, None)

    def addto(lv):
        def f(ii, mod):
            append("lst", val(ii, lv))(ii, mod)
            for k, v in of(lv).items():
                ii.setattr_(mod, k, v, None)
        return f
    w = World(hosts=[{"url": "local:h", "groups": ["g2", "g1"], "vars": {**by["decl"], **of("decl")}}, {"name": "k", "url": "ssh://u@k:22", "groups": ["g1"]}, "local:m"],
              groups=[{"name": "g1", "before": ["g2"]}, "g2"], glob={**by["inventory"], **of("inventory")},
              files={gfile("all"): body("all", mklist), gfile("g1"): body("g1", addto("g1")), gfile("g2"): body("g2", addto("g2")), hfile("h"): body("host", addto("host"))})

    def entry(ii):
        load(ii)
        n = ii.notes
        names = [f"x{m}" for m in masks] + ["_hidden", "imported", "lst"]
        n["vars"] = {h: hostvars(ii, o, names) for h, o in n["hosts"].items()}
        n["lists"] = {h: r["lst"] for h, r in n["vars"].items()}
        fm = ii.modules["fora"]
        n["after"] = (fm.vars.get("group"), fm.vars.get("host"))
        n["ident"] = {h: hostvars(ii, o, ["name", "url", "groups"]) for h, o in n["hosts"].items()}
        n["exported"] = {h: [k.v for k, _ in ii.call(ii.getattr_(o, "exported_variables", None), [], {}, None).pairs] for h, o in n["hosts"].items()}
        n["file"] = {h: ii.call(ii.getattr_(o, "definition_file", None), [], {}, None) for h, o in n["hosts"].items()}
        # attribute access
        h = n["hosts"]["h"]
        s = ii.choose(3, "script")
        sc = NONE
        if s:
            sc = ii.call(M.lookup(ii, "fora.types.ScriptWrapper"), [K("s")], {}, None)
            mod = Inst(Ext("types.ModuleType"), {"$ns": TRUE, "__name__": K("s"), **{k: val(ii, "script") for k in EMPTY}, "x1": val(ii, "script"), "own": val(ii, "script"), "modimp": Inst(Ext("types.ModuleType"), {"$ns": TRUE}, ii.epoch)}, ii.epoch)
            ii.call(ii.getattr_(sc, "wrap", None), [mod], {"copy_members": TRUE, "copy_functions": TRUE} if s == 2 else {}, None)
        fm.vars["script"] = sc
        n["script"] = s
        n["empty"] = hostvars(ii, h, list(EMPTY))
        n["connector"] = {h2: hostvars(ii, o, ["connector"])["connector"] for h2, o in n["hosts"].items()}
        n["attr"] = hostvars(ii, h, ["x1", "own", "modimp", "nowhere", "defaults", "_hidden", "name"])
        vh = ii.call(ii.getattr_(h, "vars_hierarchical", None), [], {}, None)
        n["vh"] = {k.v: v for k, v in vh.pairs if isinstance(k, K)}
        ii.setattr_(h, "x1", val(ii, "set"), None)
        n["set"] = hostvars(ii, h, ["x1"])["x1"]
        n["set other"] = hostvars(ii, n["hosts"]["k"], ["x1"])["x1"]
        vh = ii.call(ii.getattr_(h, "vars_hierarchical", None), [], {}, None)
        n["vh set"] = {k.v: v for k, v in vh.pairs if isinstance(k, K)}.get("x1")
        return NONE
    member = {"h": LEVELS, "k": ("inventory", "all", "g1"), "m": ("inventory", "all")}
    for p in ctx.take(explore(i, config(i, w, distinct), entry, 200), "variables"):
        n = p.notes
        if p.kind == "raise":
            ctx.viol("precedence", "raise", f"loading a valid inventory or reading its variables raises {p.excname}: {show(freeze(p.exc.attrs.get('args', NONE)))}", p)
            continue
        for h, levels in member.items():
            for m in masks:
                defs = [lv for j, lv in enumerate(LEVELS) if m >> j & 1 and lv in levels]
                got = n["vars"][h][f"x{m}"]
                if not defs:
                    ctx.check(got is None, "isolated", "value", f"host {h} has the variable that only {[lv for j, lv in enumerate(LEVELS) if m >> j & 1]} define", p)
                    continue
                want = V(defs[-1], m)
                ctx.check(got is not None and got[0] is want, "precedence", "+".join(defs[-2:]), f"a variable of host {h} defined by {', '.join(defs)} has the value {show(got[1]) if got else 'missing'} instead of that of {defs[-1]}", p)
            want = [val(i, lv) for lv in levels if lv in ("all", "g1", "g2", "host")]
            got = n["lists"][h]
            ctx.check(got is not None and isinstance(got[1], S) and list(got[1].a) == want, "isolated", "list", f"a list extended in place is {show(got[1]) if got else None} for host {h}", p)
            unexpected = [k for k in n["exported"][h] if k not in ("fora_managed", "host", "lst", "imported", *EMPTY) and not k.startswith("x")]
            if h == "h":
                unexpected = [k for k in unexpected if k != "imported"]
            ctx.check(not unexpected, "exact", "exported", f"host {h} has the additional variables {unexpected}", p)
            ctx.check(n["vars"][h]["imported"] is None or h == "h", "exact", "imported", f"a module imported by a group became a variable of host {h}", p)
            hid = n["vars"][h]["_hidden"]
            ctx.check(hid is None or (h == "h" and hid[0] is K("host")), "exact", "hidden", f"a private variable of a group became one of host {h}", p)
        lists = [n["lists"][h][0] for h in member if n["lists"][h]]
        ctx.check(all(a is not b for a, b in itertools.combinations(lists, 2)), "isolated", "shared", "two hosts share the same list", p)
        # what the modules of the first host saw (the notes hold the last execution of each level; g2 and host only belong to h)
        for lv in ("g2", "host"):
            sn = n["seen"].get(lv, {})
            for m in masks:
                defs = [x for j, x in enumerate(LEVELS) if m >> j & 1 and j < LEVELS.index(lv)]
                got = sn.get(f"x{m}")
                want = V(defs[-1], m) if defs else None
                ctx.check(got is want, "visible", lv, f"while {lv} is executed, a variable defined by {defs} is {show(got) if got is not None else 'missing'}", p)
            ctx.check(sn.get("_hidden") is None and sn.get("imported") is None, "exact", "passed on", f"private variables or imported modules are passed on to {lv}", p)
        for h, (nm, url) in {"h": ("h", "local:h"), "k": ("k", "ssh://u@k:22"), "m": ("m", "local:m")}.items():
            r = n["ident"][h]
            ctx.check(r["name"] and r["name"][0] is K(nm), "identity", "name", f"host {h} has the name {show(r['name'][1]) if r['name'] else None}", p)
            ctx.check(r["url"] and r["url"][0] is K(url), "identity", "url", f"host {h} has the url {show(r['url'][1]) if r['url'] else None}", p)
            gs = r["groups"][0] if r["groups"] else None
            ctx.check(gs is not None and {x.v for x in gs.items} == {"all"} | {x for x in member[h] if x in ("g1", "g2")}, "identity", "groups", f"host {h} has the groups {show(r['groups'][1]) if r['groups'] else None}", p)
        ctx.check(n["file"]["h"] is K(hfile("h")), "identity", "file", f"the definition file of the host is {show(freeze(n['file']['h']))}", p)
        for path, mod, g, h in n["globals"]:
            short = path.split("/")[-1][:-3]
            if path.startswith(BASE + "/groups/"):
                ctx.check(isinstance(g, Inst) and g.attrs.get("name") is K(short), "identity", "fora.group", f"fora.group is not the group {short} while it is loaded", p)
            elif path.startswith(BASE + "/hosts/"):
                ctx.check(isinstance(h, Inst) and h.attrs.get("name") is K(short), "identity", "fora.host", f"fora.host is not the host {short} while it is loaded", p)
        ctx.check(n["after"][0] is NONE and n["after"][1] is NONE, "identity", "reset", "fora.group or fora.host stay set after the inventory was loaded", p)
        a = n["attr"]
        x1 = n["vars"]["h"]["x1"]
        for k, v in EMPTY.items():
            got = n["empty"][k]
            ctx.check(got is not None and got[0] is v and n["vh"].get(k) is v, "attribute", "empty value", f"a variable of the host with the value {show(v)} is {show(got[1]) if got else 'missing'} as attribute and {show(n['vh'].get(k))} in the merged variables", p)
        for h2, got in n["connector"].items():
            ctx.check(got is not None and got[0] is val(i, "all"), "precedence", "connector", f"the connector which a group defines is {show(got[1]) if got else 'missing'} for host {h2}", p)
        ctx.check(a["x1"] is not None and x1 is not None and a["x1"][0] is x1[0], "attribute", "own", "a script variable hides the host's own variable", p)
        ctx.check(n["vh"].get("x1") is (x1[0] if x1 else None), "attribute", "vars own", "a script variable hides the host's own variable in the merged variables", p)
        ctx.check(a["name"] is not None and a["name"][0] is K("h") and n["vh"].get("name") is K("h"), "attribute", "name", "the script's name hides the host's", p)
        if n["script"]:
            ctx.check(a["own"] is not None and a["own"][0] is val(i, "script"), "attribute", "script", "a variable of the active script can't be read by way of the host", p)
            ctx.check(n["vh"].get("own") is val(i, "script"), "attribute", "vars script", "a variable of the active script is missing in the merged variables", p)
        else:
            ctx.check(a["own"] is None and "own" not in n["vh"], "attribute", "no script", "a script variable is visible although no script is active", p)
        ctx.check(a["modimp"] is None and a["nowhere"] is None and a["defaults"] is None, "attribute", "undefined", "an undefined variable or a module imported by the script appears as a host variable", p)
        ctx.check(n["set"] is not None and n["set"][0] is val(i, "set") and n["vh set"] is val(i, "set"), "attribute", "set", "an assignment to a host variable has no effect", p)
        ctx.check(n["set other"] is None or n["set other"][0] is not val(i, "set"), "isolated", "set", "an assignment to a variable of one host shows in another one", p)


def _get(ii, mod, k):
    try:
        return ii.getattr_(mod, k, None)
    except AbsRaise:
        return None


# --------------------------------------------------------------------------
# C23: invalid inventories


def declarations(i, ctx):
    ctx.rule("rejected", "An inventory with duplicate or nameless hosts, duplicate or undeclared groups, self-dependent groups, declarations of a wrong type, unknown url schemas or without a list of hosts is rejected.")
    ctx.rule("early", "It is rejected before any group or host module is executed.")
    ctx.rule("missing-file", "An explicitly given module file that doesn't exist is an error.")
    ctx.rule("error", "The rejection is a FatalError or ValueError and doesn't leave an initialized inventory behind.")
    ctx.rule("accepted", "Valid declarations are accepted in all their forms.")
    ctx.functions |= {"fora.loader.load_inventory", "fora.inventory_wrapper.InventoryWrapper.load"}
    H, G = "HostDeclaration", "GroupDeclaration"
    bad = {
        "duplicate host": World(hosts=["local:h", "local:h"]),
        "duplicate host by name": World(hosts=["local:h", {"name": "h", "url": "local:x"}]),
        "duplicate host of different schemas": World(hosts=["local:h", Decl(H, url="ssh://root@h:22")]),
        "host without url and name": World(hosts=[{"groups": []}]),
        "host object without url and name": World(hosts=["local:k", Decl(H)]),
        "host of wrong type": World(hosts=[3]),
        "second host of wrong type": World(hosts=["local:h", ["local:k"]]),
        "host with unknown schema": World(hosts=["nosuch://h"]),
        "unknown group of a host": World(hosts=[{"url": "local:h", "groups": ["g9"]}], groups=["g1"]),
        "unknown group of the second host": World(hosts=["local:k", {"url": "local:h", "groups": ["g1", "g9"]}], groups=["g1"]),
        "unknown group of a host although no group is declared": World(hosts=[{"url": "local:h", "groups": ["g9"]}], groups=[]),
        "unknown group of the last host": World(hosts=["local:k", {"url": "local:h", "groups": ["g1"]}, {"url": "local:x", "groups": ["g9", "g1"]}], groups=["g1", "g2"]),
        "unknown group in before of a group with a valid one": World(hosts=["local:h"], groups=["g2", {"name": "g1", "before": ["g2", "g9"], "after": []}]),
        "unknown group in after of the last group": World(hosts=["local:h"], groups=["g1", "g2", {"name": "g3", "before": ["g1"], "after": ["g2", "g9"]}]),
        "duplicate group objects": World(hosts=["local:h"], groups=[Decl(G, name="g1"), Decl(G, name="g1")]),
        "unknown group in after": World(hosts=["local:h"], groups=[{"name": "g1", "after": ["g9"]}]),
        "unknown group in before": World(hosts=["local:h"], groups=["g2", {"name": "g1", "before": ["g9"]}]),
        "duplicate group": World(hosts=["local:h"], groups=["g1", "g1"]),
        "duplicate group of different forms": World(hosts=["local:h"], groups=["g1", {"name": "g2"}, Decl(G, name="g1", after=["g2"])]),
        "duplicate group all": World(hosts=["local:h"], groups=["all", {"name": "all"}]),
        "group of wrong type": World(hosts=["local:h"], groups=["g1", 5]),
        "group before itself": World(hosts=["local:h"], groups=[{"name": "g1", "before": ["g1"]}]),
        "group after itself": World(hosts=["local:h"], groups=["g2", {"name": "g1", "after": ["g2", "g1"]}]),
        "group before all": World(hosts=["local:h"], groups=[{"name": "g1", "before": ["all"]}]),
        "all after a group": World(hosts=["local:h"], groups=["g1", {"name": "all", "after": ["g1"]}]),
        "two groups depending on each other": World(hosts=["local:h"], groups=[{"name": "g1", "before": ["g2"]}, {"name": "g2", "before": ["g1"]}]),
        "cycle of groups the host is not in": World(hosts=["local:h"], groups=["g0", {"name": "g1", "after": ["g0", "g3"]}, {"name": "g2", "after": ["g1"]}, {"name": "g3", "after": ["g2"]}]),
        "no hosts": World(hosts=None, groups=["g1"]),
        "hosts not a list": World(hosts={"h": "local:h"}),
    }
    every = {gfile(g): defining() for g in ("all", "g0", "g1", "g2", "g3")}
    every.update({hfile(h): defining() for h in ("h", "k", "x")})
    for lab, w in bad.items():
        w.files.update(every)
        if lab == "no hosts":
            w.noload = True
        judge_bad(i, ctx, w, lab, INV, True)
    for lab, w in {
        "missing host file": World(hosts=[{"url": "local:h", "file": "nothere.py"}], files={hfile("h"): defining()}),
        "missing group file": World(hosts=[{"url": "local:h", "groups": ["g1"]}], groups=[{"name": "g1", "file": "nothere.py"}], files={gfile("g1"): defining()}),
        "missing host file of the second host": World(hosts=["local:k", Decl(H, url="local:h", file="nothere.py")], files={hfile("h"): defining()}),
    }.items():
        judge_bad(i, ctx, w, lab, INV, False)
    judge_bad(i, ctx, World(), "single host of unknown schema", "nosuch:h", True)
    good = {
        "string": (World(hosts=["local:h"]), {"h": "local:h"}),
        "string without schema": (World(hosts=["h"]), {"h": "ssh://h"}),
        "ssh forms": (World(hosts=["ssh://a", "ssh:b", "ssh://u@c", "ssh://u@d:22", "ssh:e:22"]), {"a": "ssh://a", "b": "ssh:b", "c": "ssh://u@c", "d": "ssh://u@d:22", "e": "ssh:e:22"}),
        "local without name": (World(hosts=["local:"]), {"localhost": "local:"}),
        "dict and object": (World(hosts=[{"url": "h"}, Decl(H, url="local:k"), {"name": "x"}, {"name": "y", "url": "ssh://z"}]), {"h": "ssh://h", "k": "local:k", "x": None, "y": "ssh://z"}),
        "undeclared groups": (World(hosts=[{"url": "local:h", "groups": ["g1", "g2"]}]), {"h": "local:h"}),
        "no host": (World(hosts=[]), {}),
        "existing file": (World(hosts=[{"url": "local:h", "file": "there.py"}, "local:k"], files={BASE + "/there.py": defining()}), {"h": "local:h", "k": "local:k"}),
        "groups in all forms": (World(hosts=["local:h"], groups=["g1", {"name": "g2", "before": ["g1"]}, Decl(G, name="g3", after=["g2", "g2"]), "all"]), {"h": "local:h"}),
        "no groups": (World(hosts=["local:h"], groups=[]), {"h": "local:h"}),
    }
    for lab, (w, hosts) in good.items():
        judge_good(i, ctx, w, lab, INV, hosts)
    judge_good(i, ctx, World(), "single host", "local:h", {"h": "local:h"}, immediate=True)
    judge_good(i, ctx, World(), "single host by ssh", "h", {"h": "ssh://h"}, immediate=True)
    judge_good(i, ctx, World(), "single host with user", "ssh://u@h:2222", {"h": "ssh://u@h:2222"}, immediate=True)


def judge_bad(i, ctx, w, lab, arg, early):
    def entry(ii):
        fm = ii.modules["fora"]
        try:
            load(ii, arg)
        finally:
            inv = fm.vars.get("inventory")
            ii.notes["init"] = isinstance(inv, Inst) and ii.call(ii.getattr_(inv, "is_initialized", None), [], {}, None)
        return NONE
    for p in ctx.take(explore(i, config(i, w), entry, 64), lab):
        if not ctx.check(p.kind == "raise", "rejected" if early else "missing-file", lab, f"an invalid inventory is accepted: {lab}", p):
            continue
        if early:
            ex = [m for m in mod_order(p) if m != INV]
            ctx.check(not ex, "early", lab, f"{', '.join(ex)} is executed although the inventory is invalid: {lab}", p)
        ctx.check("builtins.ValueError" in p.exc_names or any(x.endswith(".FatalError") for x in p.exc_names), "error", lab, f"an invalid inventory raises {p.excname}: {lab}", p)
        ctx.check(p.notes.get("init") is not TRUE, "error", "initialized|" + lab, f"a rejected inventory counts as initialized: {lab}", p)


def judge_good(i, ctx, w, lab, arg, hosts, immediate=False):
    def entry(ii):
        inv = load(ii, arg)
        n = ii.notes
        n["urls"] = [(h, ii.getattr_(o, "url", None), ii.getattr_(o, "name", None)) for h, o in n["hosts"].items()]
        n["init"] = ii.call(ii.getattr_(inv, "is_initialized", None), [], {}, None)
        return NONE
    for p in ctx.take(explore(i, config(i, w), entry, 64), lab):
        if not ctx.check(p.kind == "return", "accepted", lab, f"a valid inventory is rejected with {p.excname if p.kind == 'raise' else ''} {show(freeze(p.exc.attrs.get('args', NONE))) if p.kind == 'raise' else ''}: {lab}", p):
            continue
        got = [(h, u.v if isinstance(u, K) else u) for h, u, nm in p.notes["urls"]]
        ctx.check(got == list(hosts.items()), "accepted", "hosts|" + lab, f"the inventory has the hosts {got} instead of {list(hosts.items())}: {lab}", p)
        ctx.check(all(nm is K(h) for h, u, nm in p.notes["urls"]), "accepted", "names|" + lab, f"a host has another name than it is known by: {lab}", p)
        ctx.check(p.notes["init"] is TRUE, "accepted", "initialized|" + lab, f"a loaded inventory is not initialized: {lab}", p)
        if immediate:
            ctx.check(not mod_order(p), "accepted", "modules|" + lab, f"modules are loaded for a single host: {mod_order(p)}", p)


# --------------------------------------------------------------------------
# C27: host selection and the run


def host_run(i, ctx):
    from .core import connector_model, CCTOR, _cwd_model
    ctx.rule("selected", "A run executes the script once on each selected host, in order: those of --hosts without duplicates, by default all of the inventory.")
    ctx.rule("unknown", "An unknown host or an invalid inventory ends the run with a nonzero status before any host is contacted.")
    ctx.rule("active", "While the script runs for a host, that host is the active one and its connection is open; it is closed before the next host is contacted.")
    ctx.rule("error", "A script that fails on one host, or a host that can't be reached, ends the run with that error, and its connection is closed.")
    ctx.rule("flags", "The dry run flags of the command line arrive as fora.args.dry unchanged, before the run starts.")
    ctx.functions |= {"fora.main.main_run", "fora.main.main"}
    SCRIPT = BASE + "/tasks/deploy.py"
    errors = ["RuntimeError"]
    errors += [x for x in M.exception_names(i, ("fora.main", "fora.connection", "fora.loader")) if x not in errors]
    main_run = M.lookup(i, "fora.main.main_run")
    cases = {None: ["h", "k", "m", "Web"], "k": ["k"], "Web": ["Web"], "web": None, "m,Web,h": ["m", "Web", "h"], "m,k,h,k,m": ["m", "k", "h"], "m,h": ["m", "h"], "k,k": ["k"], "h,k,h,m,k": ["h", "k", "m"], "h,zz": None, "zz,h": None, "zz": None, "": None, "k,h,m": ["k", "h", "m"], "h,": None, "H": None}
    for arg, expect in list(cases.items()) + [("invalid", None)]:
        def script(ii, mod):
            fm = ii.modules["fora"]
            h = fm.vars.get("host")
            nm = h.attrs["name"].v if isinstance(h, Inst) else None
            conn = _get(ii, h, "connection") if nm else None
            ii.emit("script", nm or "none", {"connection": conn if conn is not None else NONE}, None)
            ii.notes.setdefault("active", []).append((nm, conn, fm.vars.get("host") is (ii.notes.get("lh") or {}).get(nm, h)))
            k = ii.choose(1 + len(errors), f"script fails on {nm}")
            if k:
                e = M.some_exception(ii, errors[k - 1], K("script"))
                ii.notes["exc"] = e
                raise AbsRaise(e)
        w = World(hosts=["local:h", {"name": "k", "url": "ssh://x"}, "local:m", {"name": "Web", "url": "local:w"}] if arg != "invalid" else ["local:h", "local:h"], files={SCRIPT: script})
        relative = arg in (None, "m,h")
        cfg = config(i, w)
        connector_model(cfg, i)
        _cwd_model(cfg, None)

        def create(ii, bound, node, fn):
            h = bound["self"]
            c = M.lookup(ii, "fora.connectors.connector.Connector")
            return Inst(c, {"host": h, "url": K("u")}, ii.epoch)
        cfg.intercepts["fora.types.HostWrapper.create_connector"] = create

        cfg.intercepts[CCTOR + "stat"] = lambda ii, bound, node, fn: Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "type": K("dir")}, ii.epoch)

        def evt(nm):
            def f(ii, bound, node, fn):
                h = bound["self"].attrs["host"]
                ii.emit("conn", nm, {"host": h.attrs["name"]}, node)
                if nm == "open" and ii.choose(2, "unreachable"):
                    ii.notes["unreachable"] = h.attrs["name"].v
                    e = ii.make_exc("OSError", K("unreachable"), errno=NONE, strerror=NONE)
                    ii.notes["exc"] = e
                    raise AbsRaise(e, node, ii.loc(node))
                return NONE
            return f
        for nm in ("open", "close"):
            cfg.intercepts[CCTOR + nm] = evt(nm)

        def entry(ii):
            M.set_globals(ii)
            fm = ii.modules["fora"]
            ii.touch(fm)
            fm.vars["host"] = fm.vars["script"] = fm.vars["inventory"] = NONE
            a = fm.vars["args"]
            ii.notes["cwd"] = K(BASE)
            a.attrs.update({"inventory": K("inventory.py" if relative else INV), "script": K("tasks/deploy.py" if relative else SCRIPT), "hosts": NONE if arg in (None, "invalid") else K(arg)})
            return ii.call(main_run, [a], {}, None)
        lab = f"--hosts {arg}" if arg is not None else "no selection"
        for p in ctx.take(explore(i, cfg, entry, 400), lab):
            runs = [e.name for e in p.events if e.kind == "script"]
            conns = [(e.name, e.arg("host").v) for e in p.events if e.kind == "conn"]
            if expect is None:
                ctx.check(not conns and not runs, "unknown", "contact|" + str(arg), f"hosts are contacted although {'the inventory is invalid' if arg == 'invalid' else 'an unknown host was selected'} ({lab})", p)
                ok = p.kind == "raise"
                ctx.check(ok, "unknown", "ends|" + str(arg), f"the run doesn't end with an error ({lab})", p)
                if ok and p.excname == "builtins.SystemExit":
                    a = p.exc.attrs.get("args")
                    st = a.items[0] if isinstance(a, TupleV) and a.items else NONE
                    st = p.exc.attrs.get("code", st)
                    ctx.check(st not in (NONE, K(0)), "unknown", "status|" + str(arg), f"the run ends with a successful status ({lab})", p)
                continue
            failed = "exc" in p.notes
            if failed:
                ctx.check(p.kind == "raise" and p.exc is p.notes["exc"], "error", "propagates", f"an error on one host is lost ({lab})", p)
                ctx.check(runs == expect[:len(runs)], "selected", "order|" + str(arg), f"the script runs on {runs} instead of {expect} ({lab})", p)
                stop = p.notes.get("unreachable") or (runs[-1] if runs else None)
                ctx.check(stop not in runs if p.notes.get("unreachable") else True, "error", "unreachable", "the script runs although the host can't be reached", p)
            else:
                ctx.check(p.kind == "return" or (p.kind == "raise" and p.excname == "builtins.SystemExit"), "selected", "raises", f"a run raises {p.excname if p.kind == 'raise' else ''} ({lab})", p)
                ctx.check(runs == expect, "selected", "hosts|" + str(arg), f"the script runs on {runs} instead of {expect} ({lab})", p)
            # connections
            openh = []
            for e in p.events:
                if e.kind == "conn" and e.name == "open":
                    ctx.check(not openh, "active", "sequential", "the next host is contacted while the previous connection is open", p)
                    if p.notes.get("unreachable") != e.arg("host").v:
                        openh.append(e.arg("host").v)
                elif e.kind == "conn":
                    if e.arg("host").v in openh:
                        openh.remove(e.arg("host").v)
                elif e.kind == "script":
                    ctx.check(openh == [e.name], "active", "connection", f"the script runs for {e.name} while the open connections are {openh}", p)
                    c = e.arg("connection")
                    ctx.check(isinstance(c, (Inst, S)) and c is not NONE, "active", "attached", "the active host has no connection while its script runs", p)
            ctx.check(not openh, "error" if failed else "active", "closed", f"connections stay open: {openh}", p)
    # flags
    def entry2(ii):
        M.set_globals(ii)
        return ii.call(M.lookup(ii, "fora.main.main"), [], {"argv": M.sym("argv", Ty("list", False, None, T_STR))}, None)
    n_ok = 0
    for p in ctx.take(explore(i, Config(), entry2, 400), "main"):
        opts, ns = {}, None
        for e in p.events:
            if e.kind == "meth" and e.name.endswith(".add_argument"):
                flags = []
                j = 0
                while str(j) in e.args:
                    flags.append(e.args[str(j)].v if isinstance(e.args[str(j)], K) else None)
                    j += 1
                dest = e.args.get("dest")
                for f in flags:
                    opts[f] = (dest.v if isinstance(dest, K) else (flags[-1] or "").lstrip("-").replace("-", "_"), e.args.get("action"), e.args.get("default"))
            if e.kind == "meth" and e.name.endswith(".parse_args"):
                ns = e.res
        if not opts or ns is None:
            continue
        n_ok += 1
        for f in ("--dry", "--dry-run", "--pretend"):
            o = opts.get(f)
            ctx.check(o is not None and o[0] == "dry" and o[1] is K("store_true") and o[2] in (None, FALSE), "flags", f, f"{f} doesn't switch on fora.args.dry", p)
        for f, o in opts.items():
            if f not in ("--dry", "--dry-run", "--pretend") and f != "-n":
                ctx.check(o[0] != "dry", "flags", "other|" + str(f), f"{f} changes the dry run flag", p)
        o = opts.get("--hosts")
        ctx.check(o is not None and o[0] == "hosts" and o[2] in (None, NONE), "flags", "--hosts", "--hosts doesn't select the hosts, or has a default", p)
        for e in p.events:
            if e.kind == "setattr" and e.args.get("base") is ns and e.name.endswith((".dry", ".hosts", ".inventory", ".script")):
                ctx.viol("flags", e.name.rsplit(".", 1)[1], "the parsed command line is changed", p)
        calls = [j for j, e in enumerate(p.events) if (e.kind == "meth" and e.name == "func" and e.args.get("$self") is ns) or e.kind == "callsym"]
        sets = [j for j, e in enumerate(p.events) if e.kind == "setglobal" and e.name == "fora.args" and e.args.get("value") is ns]
        for c in calls:
            ctx.check(any(s < c for s in sets), "flags", "before", "the run starts before fora.args is set", p)
    if not n_ok:
        ctx.undec("main: no command line parser recognised")
