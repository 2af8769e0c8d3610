"""C39: the command line selects what is run and how. Constant command lines are folded through the parser the source declares."""
from __future__ import annotations

import argparse

from ..terms import K, S, NONE, TRUE, FALSE, show
from ..objects import Inst, ListObj, TupleV, ClassObj, Ext, FnV, BoundV, PyFn, freeze
from ..interp import explore, Config, Unsupported, AbsRaise
from .. import model as M

PARSER = "argparse.ArgumentParser"
ACTION_KW = {"dest", "nargs", "const", "default", "type", "choices", "required", "help", "metavar", "version", "action"}
TYPES_ = {"builtins.str": str, "builtins.int": int, "builtins.float": float}


class _Error(Exception):
    pass


class _Box:
    """An abstract value in the hands of the parser."""

    def __init__(self, v):
        self.v = v


class _Exit(Exception):
    def __init__(self, status):
        super().__init__(status)
        self.status = status


def _py(v, what):
    if isinstance(v, K):
        return v.v
    if isinstance(v, (ListObj, TupleV)):
        return [_py(x, what) for x in v.items]
    if isinstance(v, Ext) and v.name in TYPES_:
        return TYPES_[v.name]
    if isinstance(v, (FnV, BoundV, PyFn, ClassObj, Inst)):
        return _Box(v)
    raise Unsupported(f"command line: {what} is {show(freeze(v))[:80]}")


def _abs(x, ii):
    if isinstance(x, _Box):
        return x.v
    if isinstance(x, list):
        return ListObj([_abs(y, ii) for y in x], ii.epoch)
    return K(x)


def parser_hook(ii, o, name, args, kwargs, node):
    """argparse, for parsers and command lines that are constants"""
    if not (isinstance(o, Inst) and (PARSER in ii.class_names(o.cls) or isinstance(o.cls, Ext) and o.cls.name in (PARSER, "argparse group"))):
        return None
    decl = o.attrs.get("$decl")
    if decl is None:
        ii.touch(o)
        decl = o.attrs["$decl"] = ListObj([], ii.epoch)
    if name in ("add_argument", "set_defaults"):
        ii.touch(decl)
        decl.items.append((name, list(args), dict(kwargs)))
        return NONE
    if name in ("add_argument_group", "add_mutually_exclusive_group"):
        if name != "add_argument_group":
            raise Unsupported("argparse " + name)
        return Inst(Ext("argparse group"), {"$decl": decl}, ii.epoch)
    if name in ("print_help", "print_usage", "format_help", "format_usage"):
        return NONE if name.startswith("print") else K("usage")
    if name == "exit":
        st = kwargs.get("status", args[0] if args else K(0))
        raise AbsRaise(ii.make_exc("SystemExit", st), node, ii.loc(node))
    if name == "error":
        raise AbsRaise(ii.make_exc("SystemExit", K(2)), node, ii.loc(node))
    if name not in ("parse_args", "parse_known_args"):
        raise Unsupported("argparse " + name)
    return _parse(ii, o, decl, args, kwargs, node, name)


def _parse(ii, o, decl, args, kwargs, node, name):
    if name != "parse_args":
        raise Unsupported("argparse " + name)
    line = args[0] if args else kwargs.get("args", NONE)
    if line is NONE:
        raise Unsupported("argparse: the arguments of the process")
    line = _py(line, "the command line")

    class Parser(argparse.ArgumentParser):
        def error(self, message):
            raise _Error(message)

        def exit(self, status=0, message=None):
            raise _Exit(status)

        def _print_message(self, message, file=None):
            pass

    real = Parser(prog="fora", **{k: _py(v, k) for k, v in o.attrs.items() if k in ("allow_abbrev", "prefix_chars", "add_help")})
    for what, a, k in decl.items:
        if what == "set_defaults":
            real.set_defaults(**{x: _py(v, x) for x, v in k.items()})
            continue
        pk = {x: _py(v, x) for x, v in k.items() if x != "action" and x in ACTION_KW}
        if isinstance(pk.get("type"), _Box):
            raise Unsupported("argparse type")
        act = k.get("action")
        if act is not None and not isinstance(act, K):
            if not isinstance(act, ClassObj):
                raise Unsupported("argparse action")

            def make(act=act, k=k):
                class Custom(argparse.Action):
                    def __init__(self, option_strings, dest, **kw):
                        super().__init__(option_strings, dest, **kw)
                        more = {x: v for x, v in k.items() if x not in ("action", "dest")}
                        self.inst = ii.call(act, [ListObj([K(x) for x in option_strings], ii.epoch)], {"dest": K(dest), **more}, node)

                    def __call__(self, parser, namespace, values, option_string=None):
                        ns = Inst(Ext("argparse.Namespace"), {x: _abs(v, ii) for x, v in vars(namespace).items()}, ii.epoch)
                        ii.call(ii.getattr_(self.inst, "__call__", node), [o, ns, _abs(values, ii)], {"option_string": K(option_string)}, node)
                        for x, v in ns.attrs.items():
                            setattr(namespace, x, _py(v, x))
                return Custom
            pk["action"] = make()
        elif act is not None:
            pk["action"] = act.v
        real.add_argument(*[_py(x, "an option") for x in a], **pk)
    try:
        ns = real.parse_args(line)
    except _Error as e:
        ii.call(ii.getattr_(o, "error", node), [K(str(e))], {}, node)
        raise Unsupported("argparse: error() returns")
    except _Exit as e:
        raise AbsRaise(ii.make_exc("SystemExit", K(e.status)), node, ii.loc(node))
    return Inst(Ext("argparse.Namespace"), {x: _abs(v, ii) for x, v in vars(ns).items()}, ii.epoch)


LAYOUTS = ("minimal", "flat", "dotfiles", "modular", "staging_prod")
DEFAULTS = dict(dry=False, diff=False, changes=True, verbose=0, debug=False, hosts=None, inventory="i.py", script="s.py")


def cases():
    """(command line, what is to happen, expected options)"""
    run = ["i.py", "s.py"]
    yield run, "run", {}
    for f in ("--dry", "--dry-run", "--pretend"):
        yield [f] + run, "run", {"dry": True}
        yield run + [f], "run", {"dry": True}
    yield ["--diff"] + run, "run", {"diff": True}
    yield ["--no-changes"] + run, "run", {"changes": False}
    yield ["--no-color"] + run, "run", {"no_color": True}
    yield ["-v"] + run, "run", {"verbose": 1}
    yield ["-vv"] + run, "run", {"verbose": 2}
    yield ["--verbose", "-v", "-v"] + run, "run", {"verbose": 3}
    yield ["--debug"] + run, "run", {"debug": True, "verbose": max}
    yield ["--debug", "-v"] + run, "run", {"debug": True, "verbose": max}
    for f in ("-H", "--hosts"):
        yield [f, "a,b"] + run, "run", {"hosts": "a,b"}
    yield ["--hosts=a"] + run, "run", {"hosts": "a"}
    yield ["-Ha"] + run, "run", {"hosts": "a"}
    yield ["--hosts", ""] + run, "run", {"hosts": ""}
    yield ["root@h:22", "d/s.py"], "run", {"inventory": "root@h:22", "script": "d/s.py"}
    yield ["ssh://h", "--dry", "x y.py", "--diff"], "run", {"inventory": "ssh://h", "script": "x y.py", "dry": True, "diff": True}
    yield ["--", "i.py", "-s.py"], "run", {"script": "-s.py"}
    yield ["--diff", "--no-changes", "-v", "--no-color", "--dry", "-H", "z"] + run, "run", {"diff": True, "changes": False, "verbose": 1, "no_color": True, "dry": True, "hosts": "z"}
    for x in LAYOUTS:
        yield ["--init", x], "init", {"arg": x}
    yield ["--init=flat"], "init", {"arg": "flat"}
    yield ["--inspect-inventory", "inv/x.py"], "show", {"arg": "inv/x.py"}
    yield ["--inspect-inventory", "h"], "show", {"arg": "h"}
    for bad in ([], ["i.py"], ["i.py", "s.py", "t.py"], ["--bogus", "i.py", "s.py"], ["--hosts"], ["i.py", "s.py", "--hosts"], ["--init"], ["--init", "other"], ["--init", "Minimal"], ["--inspect-inventory"],
                ["--dry=yes", "i.py", "s.py"], ["-x", "i.py", "s.py"], ["--dry"], ["--no-color", "i.py"]):
        yield bad, "error", {}
    yield ["-V"], "exit", {}
    yield ["--version"], "exit", {}
    yield ["--help"], "exit", {}


def command_line(i, ctx):
    ctx.rule("run", "A command line with an inventory and a script runs that script on that inventory.")
    ctx.rule("options", "Every option has the documented effect and no other: what the command line doesn't ask for is off, and fora.args is set before anything is loaded.")
    ctx.rule("instead", "--init, --inspect-inventory, --version and --help do only that, with the given layout or inventory.")
    ctx.rule("invalid", "An invalid command line ends the program with a nonzero status, and nothing is loaded, run or created.")
    main = M.lookup(i, "fora.main.main")
    ctx.functions |= {"fora.main.main"}
    for line, what, want in cases():
        cfg = Config()
        M.log_intercepts(cfg, i)
        cfg.meth_hook = parser_hook
        for q, kind in (("fora.loader.load_inventory", "run"), ("fora.example_deploys.init_deploy_structure", "init"), ("fora.main.show_inventory", "show")):
            fn = M.lookup(i, q)
            params = M.op_args(i, fn)
            key = next(iter(params), None)

            def handler(ii, bound, node, fn, kind=kind, key=key):
                a = ii.modules["fora"].vars.get("args")
                ii.notes.setdefault("did", []).append((kind, freeze(bound.get(key, NONE)), {k: freeze(v) for k, v in a.attrs.items()} if isinstance(a, Inst) else None))
                raise AbsRaise(ii.make_exc("SystemExit", K(0)), node, ii.loc(node))
            cfg.intercepts[q] = handler

        def entry(ii):
            M.set_globals(ii)
            fm = ii.modules["fora"]
            ii.touch(fm)
            fm.vars["host"] = fm.vars["script"] = fm.vars["inventory"] = fm.vars["args"] = NONE
            return ii.call(main, [ListObj([K(x) for x in line], ii.epoch)], {}, None)
        lab = " ".join(["fora"] + line)
        colors = set()
        for p in ctx.take(explore(i, cfg, entry, 200), lab):
            did = p.notes.get("did", [])
            status = None
            if p.kind == "raise" and p.excname == "builtins.SystemExit":
                a = p.exc.attrs.get("args")
                status = p.exc.attrs.get("code", a.items[0] if isinstance(a, TupleV) and a.items else NONE)
            if what == "error":
                ctx.check(not did, "invalid", "did|" + lab, f"'{lab}' is invalid but {'loads ' + show(did[0][1]) if did else ''}", p)
                ctx.check(p.kind == "raise" and (status is None or freeze(status) not in (NONE, K(0))), "invalid", "status|" + lab, f"'{lab}' is invalid but ends with a successful status", p)
                continue
            if what == "exit":
                ctx.check(not did, "instead", "did|" + lab, f"'{lab}' loads or creates something", p)
                ctx.check(p.kind == "return" or freeze(status or NONE) in (NONE, K(0)) and p.excname == "builtins.SystemExit", "instead", "status|" + lab, f"'{lab}' ends with an error", p)
                continue
            rule = "run" if what == "run" else "instead"
            if not ctx.check(len(did) == 1 and did[0][0] == what, rule, lab,
                             f"'{lab}' " + (f"does {' and '.join(d[0] for d in did)}" if did else f"ends with {p.excname if p.kind == 'raise' else 'nothing done'}"), p):
                continue
            _, arg, opts = did[0]
            if what != "run":
                ctx.check(arg is K(want["arg"]), rule, "arg|" + lab, f"'{lab}' uses {show(arg)}", p)
                continue
            w = {**DEFAULTS, **want}
            ctx.check(arg is K(w["inventory"]), "run", "inventory|" + lab, f"'{lab}' loads the inventory {show(arg)}", p)
            if not ctx.check(opts is not None, "options", "args", "fora.args isn't set when the inventory is loaded", p):
                continue
            for k, v in w.items():
                got = opts.get(k)
                ok = got is K(v) and type(got.v) is type(v) if v is not max else isinstance(got, K) and isinstance(got.v, int) and got.v >= 3
                ctx.check(ok, "options", k + ("" if v == DEFAULTS.get(k) else "|given"), f"'{lab}': {k} is {show(got) if got is not None else 'missing'}", p)
            if "no_color" in opts:
                colors.add(opts["no_color"])
        if what == "run" and colors and all(isinstance(c, K) for c in colors):
            if want.get("no_color"):
                ctx.check(colors == {TRUE}, "options", "no_color|given", f"'{lab}': output is colored in spite of --no-color")
            else:
                ctx.check(colors == {TRUE, FALSE}, "options", "no_color", f"'{lab}': whether output is colored is always {sorted(show(c) for c in colors)}")
