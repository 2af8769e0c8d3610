"""
A path-sensitive abstract interpreter for the Python subset used by fora.

It walks the syntax trees of /repo/src/fora over provenance terms.  No code of
the repository is imported or run.  Undecided branches are enumerated by the
driver in ``explore`` (depth first); loops over unknown collections are
summarised by zero or one generic iteration; ``while`` loops with undecided
conditions are followed for up to three such decisions.  Constructs outside of the subset end the path as ``incomplete``.
"""
from __future__ import annotations
import ast
import traceback
import builtins
import os

from .terms import (K, S, V, NONE, TRUE, FALSE, B, mk, ite, cat, tostr, not_, none_atom, truthy_atom, eq_atom, conj,
                    disj, Facts, Infeasible, typeof, TYPES, Ty, T_ANY, T_STR, T_INT, T_BOOL, T_BYTES, show,
                    set_class_disjoint)
from .objects import (ListObj, SetObj, DictObj, TupleV, Env, ModuleObj, ClassObj, Inst, FnV, BoundV, PartialV, PyFn,
                      MethV, SuperV, Ext, TypeX, IterObj, CtxMgr, freeze, cls_name, Heap)


class Unsupported(Exception):
    """The path leaves the supported subset."""


class CutPath(Exception):
    """The path ends here on purpose (loop back edge absorbed by a summary)."""


class LazyAbort(Exception):
    """A speculative pure evaluation needed a decision."""


class AbsRaise(Exception):
    def __init__(self, exc, node=None, loc=None):
        self.exc = exc
        self.node = node
        self.loc = loc


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Event:
    __slots__ = ("kind", "name", "args", "loc", "stack", "i", "res", "raw", "nfacts")

    def __init__(self, kind, name, args, loc, stack, i, res=None, raw=None, nfacts=0):
        self.kind = kind
        self.name = name
        self.args = args
        self.loc = loc
        self.stack = stack
        self.i = i
        self.res = res
        self.raw = raw
        self.nfacts = nfacts

    def arg(self, k, default=None):
        return self.args.get(k, default)

    def __repr__(self):
        a = ", ".join(f"{k}={show(v)}" for k, v in self.args.items())
        return f"{self.kind}:{self.name}({a}) @{self.loc}"


class Path:
    """Summary of one path through an entry point."""

    def __init__(self):
        self.events = []
        self.facts = None
        self.kind = None
        self.value = None
        self.exc = None
        self.excname = ""
        self.reason = None
        self.loc = None
        self.notes = {}

    def __repr__(self):
        return f"<Path {self.kind} {self.reason or ''} events={len(self.events)}>"


BUILTIN_EXC_ALIAS = {"IOError": "OSError", "EnvironmentError": "OSError"}
EXT_EXC_BASES = {
    "subprocess.CalledProcessError": "subprocess.SubprocessError",
    "subprocess.TimeoutExpired": "subprocess.SubprocessError",
    "subprocess.SubprocessError": "builtins.Exception",
    "struct.error": "builtins.Exception",
    "jinja2.exceptions.UndefinedError": "jinja2.exceptions.TemplateRuntimeError",
    "jinja2.exceptions.TemplateRuntimeError": "jinja2.exceptions.TemplateError",
    "jinja2.exceptions.TemplateSyntaxError": "jinja2.exceptions.TemplateError",
    "jinja2.exceptions.TemplateError": "builtins.Exception",
    "jinja2.UndefinedError": "jinja2.exceptions.TemplateRuntimeError",
    "argparse.ArgumentError": "builtins.Exception",
    "binascii.Error": "builtins.ValueError",
    "zlib.error": "builtins.Exception",
}

EXT_ALIAS = {
    "jinja2.UndefinedError": "jinja2.exceptions.UndefinedError",
    "jinja2.TemplateError": "jinja2.exceptions.TemplateError",
    "posixpath": "os.path", "importlib.machinery": "importlib.machinery",
    "io.open": "builtins.open", "errno": "errno", "typing_extensions": "typing",
    "builtins.IOError": "builtins.OSError", "builtins.EnvironmentError": "builtins.OSError",
    "os.error": "builtins.OSError",
}


def canon_ext(name):
    if name in EXT_ALIAS:
        return EXT_ALIAS[name]
    for p in ("posixpath", "typing_extensions"):
        if name.startswith(p + "."):
            return EXT_ALIAS[p] + name[len(p):]
    return name


class Program:
    """All modules of the package below root, parsed."""

    def __init__(self, root, package="fora"):
        self.root = root
        self.package = package
        self.files = {}
        self.trees = {}
        self.src = {}
        base = os.path.join(root, package)
        for d, dirs, fs in os.walk(base):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                self.files[rel] = p
        for m, p in self.files.items():
            with open(p, encoding="utf-8") as fh:
                self.src[m] = fh.read()
            self.trees[m] = ast.parse(self.src[m], filename=p)

    def rel(self, m):
        return os.path.relpath(self.files[m], os.path.dirname(self.root))

    def submodules(self, pkg):
        pre = pkg + "."
        return [m for m in self.files if m.startswith(pre) and "." not in m[len(pre):]]


class Frame:
    __slots__ = ("fn", "env", "module", "node", "name", "on_yield", "yields", "owner", "self_", "handled")

    def __init__(self, fn, env, module, name):
        self.fn = fn
        self.env = env
        self.module = module
        self.name = name
        self.node = None
        self.on_yield = None
        self.yields = None
        self.owner = None
        self.self_ = None
        self.handled = []


class Config:
    """Per-analysis configuration."""

    def __init__(self):
        self.intercepts = {}      # qualname -> handler(interp, args(dict bound), node, fn)
        self.meth_intercepts = {} # (term-op or type cls, method) -> handler
        self.ext = {}             # external name -> handler(interp, args, kwargs, node)
        self.attr = {}            # (class qualname or op, attr) -> handler(interp, base)
        self.attr_hook = None     # fn(interp, base_term, name) -> value or None
        self.meth_hook = None     # fn(interp, base_term, name, args, kwargs, node) -> value or None
        self.iter_hook = None     # fn(interp, term) -> list or None
        self.raises = {}          # external name / api name -> list of exception makers
        self.max_paths = 20000
        self.max_depth = 60
        self.loop_iters = (0, 1)
        self.record_ext = True
        self.max_steps = 200000
        self.opaque_fns = set()   # qualnames of internal functions not entered
        self.distinct = set()     # terms assumed pairwise distinct
        self.ext_pure = set()
        self.dunder = False       # honour __getattribute__ / __setattr__ of analysed classes
        self.set_order = None     # fn(interp, items) -> order in which a set is iterated
        self.bin_hook = None      # fn(interp, ast operator, left, right) -> value or None
        self.op_hook = None       # fn(interp, wrapped function, args, kwargs, node) for calls of decorated functions


class Interp:
    def __init__(self, program: Program):
        self.prog = program
        self.modules = {}
        self.epoch = 0
        self.trail = []
        self.cfg = Config()
        self.facts = Facts()
        self.frames = []
        self.events = []
        self.choices = []
        self.pos = 0
        self.lazy = 0
        self.symattrs = {}
        self.seq = 0
        self.steps = 0
        self.loading = 0
        self.pending_bases = []    # classes whose bases come from a module that was still being loaded
        self.notes = {}
        self.classes = {}
        self.visited_fns = set()
        self.call_sites = set()
        from . import ext
        self.ext_models = ext.MODELS
        self.extmod = ext
        set_class_disjoint(self._classes_disjoint)

    # -- classes ------------------------------------------------------------
    def _classes_disjoint(self, a, b):
        ca, cb = self.classes.get(a), self.classes.get(b)
        if ca is None or cb is None:
            return False
        return cb not in ca.mro() and ca not in cb.mro()

    # -- mutation log ---------------------------------------------------------
    def touch(self, obj):
        if obj.epoch != self.epoch:
            self.trail.append((obj, obj.snap(), obj.epoch))
            obj.epoch = self.epoch

    def undo(self):
        while self.trail:
            obj, s, e = self.trail.pop()
            obj.restore(s)
            obj.epoch = e

    # -- choices ----------------------------------------------------------------
    def choose(self, n, label=""):
        if self.lazy:
            raise LazyAbort()
        if self.loading:
            return 0
        if n <= 1:
            return 0
        if self.pos < len(self.choices):
            c = self.choices[self.pos]
            self.pos += 1
            return c[0]
        self.choices.append([0, n, label])
        self.pos += 1
        return 0

    def decide(self, t):
        """Truth value of a boolean term; forks when unknown."""
        k = self.facts.known(t)
        if k is not None:
            return k
        op = t.op
        if op == "not":
            return not self.decide(truthy_atom(t.a[0]))
        if op == "and":
            return self.decide(truthy_atom(t.a[0])) and self.decide(truthy_atom(t.a[1]))
        if op == "or":
            return self.decide(truthy_atom(t.a[0])) or self.decide(truthy_atom(t.a[1]))
        if op == "ite":
            c = self.decide(truthy_atom(t.a[0]))
            return self.decide(truthy_atom(t.a[1] if c else t.a[2]))
        if op in ("none", "isinst", "hasattr"):
            x = t.a[0]
            x2 = self.split(x)
            if x2 is not x:
                return self.decide(none_atom(x2)) if op == "none" else self.decide_isinst(x2, t)
        if op == "eq" and any(isinstance(x, K) for x in t.a):
            y = [self.split(x) for x in t.a]
            if y[0] is not t.a[0] or y[1] is not t.a[1]:
                return self.decide(eq_atom(*y))
        if op == "truthy":
            x2 = self.split(t.a[0])
            if x2 is not t.a[0]:
                return self.decide(truthy_atom(x2))
        v = self.choose(2, t) == 0
        self.facts.assume(t, v)
        return v

    def decide_isinst(self, x, t):
        if isinstance(x, K):
            return type(x.v).__name__ == t.a[1]
        return self.decide(mk(t.op, x, *t.a[1:]))

    def split(self, x):
        """Resolve a top-level ite/or/and term into one of its branches (forks)."""
        x = self.facts.simp(x)
        while isinstance(x, S) and x.op in ("ite", "or", "and"):
            c = self.decide(truthy_atom(x.a[0]))
            if x.op == "ite":
                x = x.a[1] if c else x.a[2]
            elif x.op == "or":
                x = x.a[0] if c else x.a[1]
            else:
                x = x.a[1] if c else x.a[0]
            x = self.facts.simp(x)
        return x

    def truth(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, S):
            return self.decide(truthy_atom(v))
        if isinstance(v, (ListObj, SetObj, TupleV)):
            if not v.items:
                return False
            if any(not (isinstance(x, S) and x.op == "splat") for x in v.items):
                return True
            for x in v.items:
                if self.decide(truthy_atom(x.a[0])):
                    return True
            return False
        if isinstance(v, DictObj):
            if v.pairs:
                return True
            if v.origin is not None:
                return self.decide(truthy_atom(v.origin))
            return False
        if isinstance(v, Inst):
            for m in ("__bool__", "__len__"):
                if isinstance(v.cls, ClassObj):
                    c, f = v.cls.find(m)
                    if f is not None:
                        return self.truth(self.call(BoundV(v, f), [], {}, None))
            return True
        return True

    # -- events -------------------------------------------------------------
    def loc(self, node=None):
        for f in reversed(self.frames):
            n = node if node is not None and hasattr(node, "lineno") else f.node
            if n is not None and hasattr(n, "lineno"):
                return f"{self.prog.rel(f.module.name)}:{n.lineno} ({f.name})"
            node = None
        return "?"

    def emit(self, kind, name, args, node=None, res=None, raw=None):
        if self.loading:
            return None
        e = Event(kind, name, {k: freeze(v) for k, v in args.items()}, self.loc(node),
                  tuple(f.name for f in self.frames), len(self.events), res, raw, len(self.facts.d))
        if self.lazy:
            raise LazyAbort()
        self.events.append(e)
        return e

    def fresh(self, name, *args, ty=None):
        self.seq += 1
        t = mk("res", name, self.seq, *[freeze(a) for a in args])
        if ty is not None:
            TYPES[t] = ty
        return t

    # -- exceptions -----------------------------------------------------------
    def make_exc(self, cls, msg=None, **attrs):
        if isinstance(cls, str):
            cls = Ext(canon_ext(cls if "." in cls else "builtins." + cls))
        a = {"args": TupleV([msg] if msg is not None else [])}
        a.update(attrs)
        return Inst(cls, a, self.epoch)

    def raise_(self, cls, msg=None, node=None, **attrs):
        raise AbsRaise(self.make_exc(cls, msg, **attrs), node, self.loc(node))

    def class_names(self, c):
        """All (canonical) names of the class and its bases."""
        out = []

        def add_ext(n):
            n = canon_ext(n)
            if n in out:
                return
            out.append(n)
            if n.startswith("builtins."):
                o = getattr(builtins, n[9:], None)
                if isinstance(o, type):
                    for b in o.__mro__[1:]:
                        bn = "builtins." + b.__name__
                        if bn not in out:
                            out.append(bn)
            elif n in EXT_EXC_BASES:
                add_ext(EXT_EXC_BASES[n])

        if isinstance(c, ClassObj):
            for x in c.mro():
                if isinstance(x, ClassObj):
                    out.append(x.qualname)
                elif isinstance(x, Ext):
                    add_ext(x.name)
        elif isinstance(c, Ext):
            add_ext(c.name)
        return out

    def is_instance(self, v, cls):
        """Boolean term for isinstance(v, cls)."""
        if isinstance(cls, TupleV):
            return disj([self.is_instance(v, c) for c in cls.items])
        if isinstance(cls, TypeX):
            if cls.origin in ("Union", "Optional"):
                return disj([self.is_instance(v, c) for c in cls.args])
            return self.is_instance(v, Ext("builtins." + str(cls.origin)))
        cn = cls_name(cls) if isinstance(cls, (ClassObj, Ext)) else None
        if cn is None:
            if isinstance(cls, K) and cls.v is None:
                return none_atom(freeze(v))
            return mk("isinst", freeze(v), show(freeze(cls)))
        cn = canon_ext(cn)
        short = cn[9:] if cn.startswith("builtins.") else cn
        if short == "object":
            return TRUE
        if isinstance(v, K):
            py = getattr(builtins, short, None)
            if short in ("NoneType", "types.NoneType"):
                return B(v.v is None)
            if isinstance(py, type):
                return B(isinstance(v.v, py))
            if short in ("typing.Callable", "collections.abc.Callable"):
                return FALSE
            return FALSE
        kinds = {ListObj: "list", DictObj: "dict", SetObj: "set", TupleV: "tuple"}
        if type(v) in kinds:
            return B(short in (kinds[type(v)], "collections.abc.Iterable", "collections.abc.Collection"))
        if isinstance(v, Inst):
            names = self.class_names(v.cls)
            if cn in names:
                return TRUE
            if isinstance(v.cls, ClassObj) and v.cls.is_namedtuple and short == "tuple":
                return TRUE
            if "$any" in v.attrs:
                # exception of unknown class
                base = self.class_names(cls)
                mine = canon_ext(cls_name(v.cls))
                if mine in base:
                    return mk("isinst", mk("exc", v.attrs["$any"]), short)
                return FALSE
            return FALSE
        if isinstance(v, ClassObj):
            return B(short == "type")
        if isinstance(v, (FnV, BoundV, PartialV, PyFn)):
            return B("Callable" in short or "Function" in short)
        if isinstance(v, ModuleObj):
            return B(short == "types.ModuleType")
        if isinstance(v, S):
            if v.op == "ite" or v.op == "or":
                v = self.split(v)
                if not isinstance(v, S):
                    return self.is_instance(v, cls)
            ty = typeof(v)
            if ty.kind in ("str", "bytes", "int", "bool", "float", "list", "dict", "set", "tuple"):
                hit = ty.kind == short or (ty.kind == "bool" and short == "int")
                if not hit:
                    return FALSE
                return not_(none_atom(v)) if ty.nullable else TRUE
            if ty.kind == "inst":
                c = self.classes.get(ty.cls)
                if c is not None:
                    if cn in self.class_names(c):
                        return not_(none_atom(v)) if ty.nullable else TRUE
                    if short in ("str", "bytes", "int", "bool", "list", "dict", "tuple", "set"):
                        return FALSE
                    if cn in self.classes and c not in self.classes[cn].mro():
                        return FALSE
            return mk("isinst", v, short)
        return mk("isinst", freeze(v), short)

    def exc_matches(self, exc, clsv):
        return self.decide_bool(self.is_instance(exc, clsv))

    def decide_bool(self, t):
        return bool(t.v) if isinstance(t, K) else self.decide(t)

    def maybe_raise(self, name, node=None):
        if self.loading:
            return
        specs = self.cfg.raises.get(name)
        if not specs:
            return
        i = self.choose(len(specs) + 1, "raise:" + name)
        if i == 0:
            return
        spec = specs[i - 1]
        exc = spec(self) if callable(spec) else self.make_exc(spec, mk("excmsg", name, spec))
        self.emit("raised", name, {"exc": mk("class", cls_name(exc.cls))}, node)
        raise AbsRaise(exc, node, self.loc(node))

    # -- modules --------------------------------------------------------------
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name not in self.prog.files:
            return None
        m = ModuleObj(name, self.prog.files[name], self.prog.trees[name], self.epoch)
        self.modules[name] = m
        # parents first
        if "." in name:
            self.module(name.rsplit(".", 1)[0])
        m.vars["__name__"] = K(name)
        m.vars["__file__"] = K("<" + name + ">")
        env = Env(None, m, self.epoch)
        env.vars = m.vars
        saved = self.frames
        fr = Frame(None, env, m, "<module " + name + ">")
        self.frames = saved + [fr]
        self.loading += 1
        try:
            for st in m.tree.body:
                try:
                    self.exec_stmt(st, fr)
                except (Unsupported, AbsRaise) as e:
                    m.undetermined |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in ast.walk(st) if isinstance(x, (ast.FunctionDef, ast.ClassDef))} \
                        | {(al.asname or al.name).split(".")[0] for x in ast.walk(st) if isinstance(x, (ast.Import, ast.ImportFrom)) for al in x.names}
                    self.notes.setdefault("module_issues", []).append(f"{name}:{getattr(st, 'lineno', '?')}: {e!r} {getattr(e, 'exc', '')}")
                    if isinstance(e, Unsupported) and any(f.f_code.co_name == "call_fn" for f, _ in traceback.walk_tb(e.__traceback__)):
                        self.notes.setdefault("lost_effects", []).append(f"{name}:{getattr(st, 'lineno', '?')}: {e}")     # a function was interpreted in part: what else it changes is unknown
                except Infeasible:
                    pass
        finally:
            self.loading -= 1
            self.frames = saved
        m.loaded = True
        if "." in name:
            par = self.modules.get(name.rsplit(".", 1)[0])
            if par is not None:
                par.vars.setdefault(name.rsplit(".", 1)[1], m)
        return m

    def load_all(self):
        for n in sorted(self.prog.files):
            if n.endswith(".__main__"):
                continue
            self.module(n)
        for m in list(self.modules.values()):
            if "." in m.name:
                par, sub = m.name.rsplit(".", 1)
                self.modules[par].vars.setdefault(sub, m)
        for c, bases in self.pending_bases:
            bases = [self.resolve_cyclic(b) if isinstance(b, S) and b.op == "cyclic" else b for b in bases]
            c.bases = [b for b in bases if isinstance(b, (ClassObj, Ext))]

    def import_name(self, dotted):
        """Value of `import dotted` (the leaf)."""
        if dotted == self.prog.package or dotted.startswith(self.prog.package + "."):
            m = self.module(dotted)
            if m is not None:
                return m
            return None
        return Ext(canon_ext(dotted))

    # -- environments -----------------------------------------------------------
    def lookup(self, name, fr):
        e = fr.env
        first = True
        while e is not None:
            if first or not e.isclass:
                if name in e.vars:
                    return e.vars[name]
            first = False
            e = e.parent
        m = fr.module
        if name in m.vars:
            return m.vars[name]
        if hasattr(builtins, name):
            return Ext(canon_ext("builtins." + name))
        if name in m.undetermined:
            raise Unsupported(f"the module's {name} is undetermined")
        self.raise_("NameError", K(name))

    def bind(self, name, v, fr):
        e = fr.env
        if name in e.globals_:
            self.touch(fr.module)
            fr.module.vars[name] = v
            self.emit("setglobal", fr.module.name + "." + name, {"value": v})
            return
        if name in e.nonlocals:
            p = e.parent
            while p is not None:
                if name in p.vars and not p.isclass:
                    self.touch(p)
                    p.vars[name] = v
                    return
                p = p.parent
        self.touch(e)
        e.vars[name] = v
        if e.vars is fr.module.vars and not self.loading:
            self.touch(fr.module)

    # -- statements -----------------------------------------------------------
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, n, fr):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Unsupported("step budget exceeded")
        fr.node = n
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__} at {self.loc(n)}")
        m(n, fr)

    def st_Expr(self, n, fr):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, fr)

    def st_Pass(self, n, fr):
        pass

    def st_Return(self, n, fr):
        raise _Return(self.ev(n.value, fr) if n.value is not None else NONE)

    def st_Break(self, n, fr):
        raise _Break()

    def st_Continue(self, n, fr):
        raise _Continue()

    def st_Global(self, n, fr):
        fr.env.globals_ = tuple(fr.env.globals_) + tuple(n.names)

    def st_Nonlocal(self, n, fr):
        fr.env.nonlocals = tuple(fr.env.nonlocals) + tuple(n.names)

    def st_Import(self, n, fr):
        for a in n.names:
            if a.name.split(".")[0] == self.prog.package:
                leaf = self.import_name(a.name)
                if leaf is None:
                    self.raise_("ModuleNotFoundError", K(a.name), n)
                v = leaf if a.asname else self.module(a.name.split(".")[0])
                self.bind(a.asname or a.name.split(".")[0], v, fr)
            else:
                v = Ext(canon_ext(a.name)) if a.asname else Ext(canon_ext(a.name.split(".")[0]))
                self.bind(a.asname or a.name.split(".")[0], v, fr)

    def st_ImportFrom(self, n, fr):
        mod = n.module or ""
        if n.level:
            base = fr.module.name
            ispkg = fr.module.path.endswith("__init__.py")
            parts = base.split(".")
            parts = parts if ispkg else parts[:-1]
            if n.level > 1:
                parts = parts[:-(n.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod == "__future__":
            return
        if mod == self.prog.package or mod.startswith(self.prog.package + "."):
            m = self.module(mod)
            if m is None:
                self.raise_("ModuleNotFoundError", K(mod), n)
            for a in n.names:
                if a.name == "*":
                    for k, v in m.vars.items():
                        if not k.startswith("_"):
                            self.bind(k, v, fr)
                    continue
                if a.name in m.vars:
                    v = m.vars[a.name]
                else:
                    v = self.module(mod + "." + a.name)
                    if v is None:
                        if not m.loaded:
                            v = mk("cyclic", mod, a.name)
                        elif a.name in m.undetermined:
                            raise Unsupported(f"{mod}.{a.name} is undetermined")
                        else:
                            self.raise_("ImportError", K(a.name), n)
                self.bind(a.asname or a.name, v, fr)
        else:
            for a in n.names:
                self.bind(a.asname or a.name, Ext(canon_ext(mod + "." + a.name)), fr)

    def st_FunctionDef(self, n, fr):
        v = self.make_fn(n, fr)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, fr)
            v = self.call(dv, [v], {}, d)
        self.bind(n.name, v, fr)

    st_AsyncFunctionDef = st_FunctionDef

    def make_fn(self, n, fr, name=None):
        a = n.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwdefaults = [None if d is None else self.ev(d, fr) for d in a.kw_defaults]
        env = fr.env
        parent = env
        while parent is not None and parent.isclass:
            parent = parent.parent
        if parent is not None and parent.vars is fr.module.vars:
            parent = None
        nm = name or getattr(n, "name", "<lambda>")
        if fr.fn is None and not fr.env.isclass:
            qn = fr.module.name + "." + nm
        elif fr.env.isclass:
            qn = fr.name + "." + nm
        else:
            qn = fr.name + ".<locals>." + nm
        f = FnV(n, parent, fr.module, qn, nm, defaults, kwdefaults, None, self.epoch)
        if not isinstance(n, ast.Lambda):
            f.is_gen = _is_generator(n)
        return f

    def st_ClassDef(self, n, fr):
        bases = [self.ev(b, fr) for b in n.bases]
        qn = (fr.module.name if fr.fn is None and not fr.env.isclass else fr.name) + "." + n.name
        c = ClassObj(n.name, qn, [b for b in bases if isinstance(b, (ClassObj, Ext))], fr.module, n, self.epoch)
        if any(isinstance(b, S) and b.op == "cyclic" for b in bases):
            self.pending_bases.append((c, bases))
        if any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in bases):
            c.is_namedtuple = True
        if any(isinstance(b, Ext) and b.name.startswith("enum.") for b in bases):
            c.is_enum = True
        for b in bases:
            if isinstance(b, ClassObj) and b.is_dataclass and False:
                c.is_dataclass = True
        env = Env(fr.env, fr.module, self.epoch, isclass=True)
        f2 = Frame(fr.fn, env, fr.module, qn)
        self.classes[qn] = c
        self.frames.append(f2)
        try:
            for s in n.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.ann_nodes[s.target.id] = s.annotation
                    try:
                        av = self.ev(s.annotation, f2) if not _future_annotations(fr.module) else K(ast.unparse(s.annotation))
                    except (AbsRaise, Unsupported):
                        av = K(ast.unparse(s.annotation))
                    c.annotations.pairs.append((K(s.target.id), av))
                    if s.value is not None:
                        env.vars[s.target.id] = self.ev(s.value, f2)
                    continue
                self.exec_stmt(s, f2)
        finally:
            self.frames.pop()
        c.vars = env.vars
        for v in c.vars.values():
            if isinstance(v, FnV) and v.owner is None:
                v.owner = c
            if isinstance(v, TupleV) and v.items and isinstance(v.items[0], FnV):
                v.items[0].owner = c
        if c.is_namedtuple:
            c.vars["_fields"] = TupleV([K(k.v) for k, _ in c.annotations.pairs])
        v = c
        for d in reversed(n.decorator_list):
            dv = self.ev(d, fr)
            v = self.call(dv, [v], {}, d)
        self.bind(n.name, v, fr)

    def st_Assign(self, n, fr):
        v = self.ev(n.value, fr)
        for t in n.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, n, fr):
        if n.value is not None:
            v = self.ev(n.value, fr)
            if isinstance(v, S) and v not in TYPES and v.op in ("res",):
                ty = self.ty_from_ann(n.annotation, fr.module)
                if ty.kind != "any":
                    TYPES[v] = ty
            self.assign(n.target, v, fr)

    def st_AugAssign(self, n, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            cur = self.getattr_(base, t.attr, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            cur = self.getitem(base, idx, t)
        else:
            raise Unsupported("augassign")
        rhs = self.ev(n.value, fr)
        if isinstance(cur, ListObj) and isinstance(n.op, ast.Add):
            self.touch(cur)
            cur.items.extend(self.iter_items(rhs))
            new = cur
        elif isinstance(cur, SetObj) and isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
            r = self.binop(n.op, cur, rhs, n)
            if isinstance(r, SetObj):
                self.touch(cur)
                cur.items = r.items
                new = cur
            else:
                new = r
        elif isinstance(cur, DictObj) and isinstance(n.op, ast.BitOr):
            self.dict_update(cur, rhs)
            new = cur
        else:
            new = self.binop(n.op, cur, rhs, n)
        if isinstance(t, ast.Name):
            self.bind(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(base, t.attr, new, t)
        else:
            self.setitem(base, idx, new, t)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assign target")

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, S) and v.op in ("ite", "or"):
            v = self.split(v)
        items = None
        if isinstance(v, (TupleV, ListObj)):
            items = list(v.items)
        elif isinstance(v, Inst) and isinstance(v.cls, ClassObj) and v.cls.is_namedtuple:
            items = [v.attrs[f.v] for f in v.cls.vars["_fields"].items]
        elif isinstance(v, S) and v.op in ("tuple", "list"):
            items = list(v.a)
        if items is not None and not any(isinstance(x, S) and x.op == "splat" for x in items):
            if star:
                i = star[0]
                after = len(elts) - i - 1
                if len(items) < len(elts) - 1:
                    self.raise_("ValueError", K("not enough values to unpack"))
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(elts[i], ListObj(items[i:len(items) - after], self.epoch), fr)
                for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(elts):
                self.raise_("ValueError", K("unpack length"))
            for e, x in zip(elts, items):
                self.assign(e, x, fr)
            return
        f = freeze(v)
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e, mk("slice", f, K(i), NONE, NONE), fr)
            else:
                self.assign(e, self.getitem(f, K(i), None), fr)

    def st_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.touch(fr.env)
                fr.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), t)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, fr)
                if isinstance(b, Inst):
                    self.touch(b)
                    b.attrs.pop(t.attr, None)
                else:
                    self.emit("delattr", t.attr, {"base": b}, t)

    def st_If(self, n, fr):
        if self.cond(n.test, fr):
            self.exec_block(n.body, fr)
        else:
            self.exec_block(n.orelse, fr)

    def cond(self, test, fr):
        """Evaluate an expression for its truth value only (forks at atoms)."""
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                return all(self.cond(v, fr) for v in test.values)
            return any(self.cond(v, fr) for v in test.values)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return not self.cond(test.operand, fr)
        return self.truth(self.ev(test, fr))

    def st_Assert(self, n, fr):
        if not self.cond(n.test, fr):
            self.raise_("AssertionError", NONE, n)

    def st_Raise(self, n, fr):
        if n.exc is None:
            for f in reversed(self.frames):
                if f.handled:
                    raise AbsRaise(f.handled[-1], n, self.loc(n))
                break
            self.raise_("RuntimeError", K("No active exception to reraise"))
        v = self.ev(n.exc, fr)
        if n.cause is not None:
            self.ev(n.cause, fr)
        if isinstance(v, (ClassObj, Ext)):
            v = self.call(v, [], {}, n)
        if isinstance(v, S):
            v = self.split(v)
        if isinstance(v, S):
            v = Inst(Ext("builtins.Exception"), {"$any": freeze(v), "args": TupleV([])}, self.epoch)
        raise AbsRaise(v, n, self.loc(n))

    def st_Try(self, n, fr):
        try:
            try:
                self.exec_block(n.body, fr)
            except AbsRaise as e:
                self.handle(n, fr, e)
            else:
                self.exec_block(n.orelse, fr)
        except (CutPath, Unsupported, Infeasible, LazyAbort):
            raise
        except (AbsRaise, _Return, _Break, _Continue) as pending:
            self.exec_block(n.finalbody, fr)
            raise pending
        else:
            self.exec_block(n.finalbody, fr)

    def handle(self, n, fr, e):
        for h in n.handlers:
            if h.type is None:
                match = True
            else:
                match = self.exc_matches(e.exc, self.ev(h.type, fr))
            if match:
                if h.name:
                    self.bind(h.name, e.exc, fr)
                fr.handled.append(e.exc)
                self.emit("caught", cls_name(e.exc.cls) if isinstance(e.exc, Inst) else "?", {"raised_at": K(str(e.loc))}, h)
                try:
                    self.exec_block(h.body, fr)
                finally:
                    fr.handled.pop()
                return
        raise e

    def st_With(self, n, fr):
        self.with_items(list(n.items), n, fr)

    def with_items(self, items, n, fr):
        if not items:
            self.exec_block(n.body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)

        def body(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            self.with_items(items[1:], n, fr)
        self.run_with(cm, body, it.context_expr)

    def run_with(self, cm, body, node):
        """Run body(value) inside of the context manager cm."""
        if isinstance(cm, S):
            cm = self.split(cm)
        if isinstance(cm, CtxMgr):
            if cm.kind == "gen":
                return self.run_gen_ctx(cm, body)
            return self.extmod.run_ctx(self, cm, body, node)
        if isinstance(cm, Inst) and isinstance(cm.cls, ClassObj):
            _, fe = cm.cls.find("__enter__")
            _, fx = cm.cls.find("__exit__")
            if fe is not None and fx is not None:
                v = self.call(BoundV(cm, fe), [], {}, node)
                self._with_protocol(v, body, lambda a: self.call(BoundV(cm, fx), a, {}, node))
                return
        if isinstance(cm, S):
            c = self.classes.get(typeof(cm).cls) if typeof(cm).kind == "inst" else None
            if c is not None:
                _, fe = c.find("__enter__")
                _, fx = c.find("__exit__")
                if fe is not None and fx is not None:
                    v = self.call(BoundV(cm, fe), [], {}, node)
                    self._with_protocol(v, body, lambda a: self.call(BoundV(cm, fx), a, {}, node))
                    return
        if isinstance(cm, Inst) and isinstance(cm.cls, Ext) and cm.cls.name == "contextlib.ExitStack":
            pending, ctl = None, None
            try:
                body(cm)
            except AbsRaise as e:
                pending = e
            except (_Return, _Break, _Continue) as c:
                ctl = c
            pending = self.extmod.exit_stack(self, cm, "$leave", pending, {}, node)
            if pending is not None:
                raise pending
            if ctl is not None:
                raise ctl
            return
        f = freeze(cm)
        self.emit("enter", show(f) if not isinstance(f, S) else f.op, {"cm": f}, node)
        v = self.extmod.enter_value(self, cm)

        def ex(a):
            self.emit("exit", f.op if isinstance(f, S) else "?", {"cm": f}, node)
            return FALSE
        self._with_protocol(v, body, ex)

    def _with_protocol(self, v, body, exit_):
        try:
            body(v)
        except AbsRaise as e:
            r = exit_([e.exc.cls if isinstance(e.exc, Inst) and isinstance(e.exc.cls, (ClassObj, Ext)) else mk("exctype"), e.exc, mk("tb")])
            if r is not None and self.truth(r):
                return
            raise e
        except (_Return, _Break, _Continue) as c:
            exit_([NONE, NONE, NONE])
            raise c
        exit_([NONE, NONE, NONE])

    def run_gen_ctx(self, cm, body):
        fn = cm.fn
        pending = []
        count = [0]

        def on_yield(v):
            count[0] += 1
            if count[0] > 1:
                raise Unsupported("contextmanager yields twice")
            # The body runs in the caller's frame context.
            saved = self.frames
            self.frames = saved[:]  # keep for location purposes
            try:
                body(v)
            except (_Return, _Break, _Continue) as c:
                pending.append(c)
            finally:
                self.frames = saved
            return NONE
        self.call_fn(fn, list(cm.args), dict(cm.kwargs), None, on_yield=on_yield)
        if pending:
            raise pending[0]

    def st_For(self, n, fr):
        it = self.ev(n.iter, fr)
        items = self.try_items(it)
        if items is None:
            self.symbolic_for(n, it, fr)
            return
        broke = False
        for x in items:
            if isinstance(x, S) and x.op == "splat":
                if not self.generic_iter(n, x.a[0], fr):
                    broke = True
                    break
                continue
            self.assign(n.target, x, fr)
            try:
                self.exec_block(n.body, fr)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.exec_block(n.orelse, fr)

    st_AsyncFor = st_For

    def generic_iter(self, n, term, fr):
        """Zero or one generic iteration. Returns False when the loop was broken out of."""
        if self.loading:
            return True
        t = truthy_atom(term)
        k = self.facts.known(t) if isinstance(t, S) else bool(t.v)
        if k is None:
            k = self.decide(t)
        if not k:
            return True
        self.assign(n.target, self.elem_of(term), fr)
        try:
            self.exec_block(n.body, fr)
        except _Break:
            return False
        except _Continue:
            pass
        return True

    def symbolic_for(self, n, it, fr):
        f = freeze(it)
        self.emit("loop", "for", {"iter": f}, n)
        if self.generic_iter(n, f, fr):
            self.exec_block(n.orelse, fr)

    def elem_of(self, term, idx=0):
        t = mk("elem", term, idx)
        ty = typeof(term)
        if ty.elem is not None and t not in TYPES:
            TYPES[t] = ty.elem
        return t

    def st_While(self, n, fr):
        """Loops whose condition is known run as they do; each undecided condition forks, for at most three of them."""
        open_ = forked = 0
        for i in range(5000):
            before = self.pos
            tv = self.cond(n.test, fr)
            if self.pos != before:
                open_ += 1
                if tv and open_ > 3:
                    self.emit("loop", "while", {}, n)
                    raise CutPath()
            if not tv:
                self.exec_block(n.orelse, fr)
                return
            try:
                self.exec_block(n.body, fr)
            except _Break:
                return
            except _Continue:
                pass
            if self.pos != before:
                forked += 1
                if forked >= 40:
                    break
        raise Unsupported("while loop does not terminate within bound")

    def st_Match(self, n, fr):
        subj = self.ev(n.subject, fr)
        for c in n.cases:
            if self.match_pat(c.pattern, subj, fr):
                if c.guard is not None and not self.cond(c.guard, fr):
                    continue
                self.exec_block(c.body, fr)
                return

    def match_pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.decide_bool(self.eqv(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.decide_bool(self.is_(v, K(p.value)))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, fr):
                return False
            if p.name:
                self.bind(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns:
            if not self.decide_bool(self.is_instance(v, self.ev(p.cls, fr))):
                return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.match_pat(q, self.getattr_(v, a, None), fr):
                    return False
            return True
        if isinstance(p, ast.MatchSequence):
            items = self.try_items(v)
            if items is None or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("match sequence")
            return len(items) == len(p.patterns) and all(self.match_pat(q, x, fr) for q, x in zip(p.patterns, items))
        raise Unsupported("match pattern")

    # -- expressions ------------------------------------------------------------
    def ev(self, n, fr):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} at {self.loc(n)}")
        return m(n, fr)

    def ex_Constant(self, n, fr):
        if n.value is Ellipsis:
            return Ext("builtins.Ellipsis")
        return K(n.value)

    def ex_Name(self, n, fr):
        v = self.lookup(n.id, fr)
        if isinstance(v, S) and v.op == "cyclic":
            v = self.resolve_cyclic(v)
        return v

    def resolve_cyclic(self, v):
        m = self.modules.get(v.a[0])
        if m is not None and v.a[1] in m.vars:
            return m.vars[v.a[1]]
        return v

    def ex_Attribute(self, n, fr):
        return self.getattr_(self.ev(n.value, fr), n.attr, n)

    def ex_Starred(self, n, fr):
        raise Unsupported("starred")

    def ex_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f2 = fr
        self.bind(n.target.id, v, f2)
        return v

    def ex_Tuple(self, n, fr):
        return TupleV(self.elts(n.elts, fr))

    def ex_List(self, n, fr):
        return ListObj(self.elts(n.elts, fr), self.epoch)

    def ex_Set(self, n, fr):
        r = SetObj([], self.epoch)
        for x in self.elts(n.elts, fr):
            self.set_add(r, x)
        return r

    def elts(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iter_items(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def ex_Dict(self, n, fr):
        d = DictObj([], self.epoch)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                self.setitem(d, self.ev(k, fr), self.ev(v, fr), n)
        return d

    def ex_Lambda(self, n, fr):
        return self.make_fn(n, fr)

    def ex_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                x = self.ev(v.value, fr)
                if v.conversion == ord("r"):
                    x = K(repr(x.v)) if isinstance(x, K) else mk("call", "repr", freeze(x))
                elif v.format_spec is not None:
                    spec = self.ex_JoinedStr(v.format_spec, fr)
                    if isinstance(x, K) and isinstance(spec, K):
                        try:
                            x = K(format(x.v, spec.v))
                        except (ValueError, TypeError):
                            x = mk("fmt", x, spec)
                    else:
                        x = mk("fmt", freeze(x), spec)
                        TYPES[x] = T_STR
                else:
                    x = self.to_str(x)
                parts.append(x)
        return cat(*parts)

    def ex_FormattedValue(self, n, fr):
        return self.to_str(self.ev(n.value, fr))

    def to_str(self, x):
        if isinstance(x, (K, S)):
            if isinstance(x, S):
                x = self.facts.simp(x)
            return tostr(x)
        if isinstance(x, Inst) and isinstance(x.cls, ClassObj):
            _, f = x.cls.find("__str__")
            if f is not None:
                return self.call(BoundV(x, f), [], {}, None)
        if isinstance(x, Inst) and "builtins.BaseException" in self.class_names(x.cls):
            a = x.attrs.get("args")
            if isinstance(a, TupleV) and len(a.items) == 1 and isinstance(a.items[0], (K, S)):
                return tostr(a.items[0])
            if isinstance(a, TupleV) and not a.items and "$any" not in x.attrs:
                return K("")
        t = mk("str", freeze(x))
        return t

    def ex_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], fr)
        for nxt in n.values[1:]:
            v = self.bool2(isand, v, nxt, fr)
        return v

    def bool2(self, isand, a, nxt, fr):
        if isinstance(a, (K, S)):
            t = truthy_atom(a)
            k = bool(t.v) if isinstance(t, K) else self.facts.known(t)
            if k is None:
                r = self.try_lazy(t, not isand, None, nxt, fr)
                if r is not None:
                    x = r
                    return mk("and" if isand else "or", a, x)
                k = self.decide(t)
        else:
            k = self.truth(a)
        if k == isand:
            return self.ev(nxt, fr)
        return a

    def try_lazy(self, cond, skip_val, _, node, fr):
        """Evaluate a pure operand under the assumption cond == (not skip_val); None if it cannot be done lazily."""
        if not _pure(node):
            return None
        saved = self.facts
        self.facts = saved.copy()
        self.lazy += 1
        try:
            self.facts.assume(cond, not skip_val)
            x = self.ev(node, fr)
        except (LazyAbort, AbsRaise, Unsupported, Infeasible):
            return None
        finally:
            self.lazy -= 1
            self.facts = saved
        if isinstance(x, (K, S)):
            return x
        return None

    def ex_IfExp(self, n, fr):
        if isinstance(n.test, (ast.BoolOp,)) or not _pure(n.test) or not (_pure(n.body) and _pure(n.orelse)):
            return self.ev(n.body if self.cond(n.test, fr) else n.orelse, fr)
        c = self.ev(n.test, fr)
        if isinstance(c, (K, S)):
            t = truthy_atom(c)
            k = bool(t.v) if isinstance(t, K) else self.facts.known(t)
            if k is None:
                x = self.try_lazy(t, False, None, n.body, fr)
                y = self.try_lazy(t, True, None, n.orelse, fr) if x is not None else None
                if x is not None and y is not None:
                    return ite(t, x, y)
                k = self.decide(t)
        else:
            k = self.truth(c)
        return self.ev(n.body if k else n.orelse, fr)

    def ex_UnaryOp(self, n, fr):
        if isinstance(n.op, ast.Not):
            v = self.ev(n.operand, fr)
            if isinstance(v, (K, S)):
                return not_(truthy_atom(v)) if isinstance(truthy_atom(v), S) else B(not truthy_atom(v).v)
            return B(not self.truth(v))
        v = self.ev(n.operand, fr)
        if isinstance(v, K):
            if isinstance(n.op, ast.USub):
                return K(-v.v)
            if isinstance(n.op, ast.UAdd):
                return v
            if isinstance(n.op, ast.Invert):
                return K(~v.v)
        return mk("un", type(n.op).__name__, freeze(v))

    def ex_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            r = self.compare(op, left, right, n)
            if r is FALSE:
                return FALSE
            res.append(r)
            left = right
        return conj(res)

    def compare(self, op, a, b, n):
        if isinstance(op, ast.Eq):
            return self.eqv(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eqv(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.in_(a, b, n)
        if isinstance(op, ast.NotIn):
            return self.neg(self.in_(a, b, n))
        if isinstance(a, (SetObj,)) and isinstance(b, SetObj):
            sub = conj([self.in_(x, b, n) for x in a.items])
            if isinstance(op, ast.LtE):
                return sub
            if isinstance(op, ast.GtE):
                return conj([self.in_(x, a, n) for x in b.items])
        fa, fb = freeze(a), freeze(b)
        if isinstance(fa, K) and isinstance(fb, K):
            try:
                x, y = fa.v, fb.v
                return B({ast.Lt: lambda: x < y, ast.Gt: lambda: x > y, ast.LtE: lambda: x <= y, ast.GtE: lambda: x >= y}[type(op)]())
            except TypeError:
                self.raise_("TypeError", K("comparison"), n)
        if isinstance(op, ast.Lt):
            return self.lt(fa, fb)
        if isinstance(op, ast.Gt):
            return self.lt(fb, fa)
        if isinstance(op, ast.LtE):
            return self.neg(self.lt(fb, fa))
        return self.neg(self.lt(fa, fb))

    def lt(self, a, b):
        # len(x) vs small constants become truthiness of x
        if isinstance(b, S) and b.op == "len" and isinstance(a, K) and a.v == 0:
            return truthy_atom(b.a[0])
        if isinstance(a, S) and a.op == "len" and isinstance(b, K) and b.v == 1:
            return self.neg(truthy_atom(a.a[0]))
        return mk("lt", a, b)

    def neg(self, t):
        return not_(t) if isinstance(t, S) else B(not t.v)

    def is_(self, a, b):
        if isinstance(b, K) and b.v is None:
            return none_atom(a) if isinstance(a, (K, S)) else FALSE
        if isinstance(a, K) and a.v is None:
            return none_atom(b) if isinstance(b, (K, S)) else FALSE
        if isinstance(a, K) and isinstance(b, K):
            return B(a is b)
        if isinstance(b, K) and isinstance(b.v, bool) or isinstance(a, K) and isinstance(a.v, bool):
            x, k = (a, b) if isinstance(b, K) else (b, a)
            if isinstance(x, S):
                if typeof(x).kind == "bool":
                    return truthy_atom(x) if k.v else self.neg(truthy_atom(x))
                return mk("is", x, k)
            return FALSE
        if isinstance(a, (S,)) or isinstance(b, (S,)):
            fa, fb = freeze(a), freeze(b)
            if fa is fb:
                return TRUE
            if fa in self.cfg.distinct and fb in self.cfg.distinct:
                return FALSE
            if fb.__class__ is S and fa.__class__ is S and fb.n < fa.n:
                fa, fb = fb, fa
            if isinstance(fa, S) and isinstance(fb, S) and (fa.op in ("ext", "class", "typex") or fb.op in ("ext", "class", "typex")) and fa.op != "havoc" and fb.op != "havoc":
                return mk("is", fa, fb)
            return mk("is", fa, fb)
        if isinstance(a, (TypeX, Ext)) or isinstance(b, (TypeX, Ext)):
            return B(a is b)
        return B(a is b)

    def eqv(self, a, b):
        tt = (Ext, PyFn, ClassObj, TypeX)
        if isinstance(a, tt) and isinstance(b, tt):
            return B(a is b)
        """Boolean term for a == b."""
        if isinstance(a, (K, S)) and isinstance(b, (K, S)):
            if isinstance(a, S):
                a = self.facts.simp(a)
            if isinstance(b, S):
                b = self.facts.simp(b)
            if a in self.cfg.distinct and b in self.cfg.distinct and a is not b:
                return FALSE
            return eq_atom(a, b)
        if a is b:
            return TRUE
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return B(a.self_ is b.self_ and a.fn is b.fn)
        if isinstance(a, Inst) and isinstance(a.cls, ClassObj):
            _, f = a.cls.find("__eq__")
            if f is not None and not isinstance(b, K):
                return self.call(BoundV(a, f), [b], {}, None)
        if isinstance(a, DictObj) and isinstance(b, DictObj) and a.origin is None and b.origin is None:
            ka = {freeze(k): v for k, v in a.pairs}
            kb = {freeze(k): v for k, v in b.pairs}
            if all(isinstance(k, K) for k in list(ka) + list(kb)):
                if set(ka) != set(kb):
                    return FALSE
                return conj([self.eqv(ka[k], kb[k]) for k in ka])
        if isinstance(a, (ListObj, TupleV)) and type(a) is type(b):
            ai, bi = a.items, b.items
            spl = any(isinstance(x, S) and x.op == "splat" for x in list(ai) + list(bi))
            if not spl:
                if len(ai) != len(bi):
                    return FALSE
                return conj([self.eqv(x, y) for x, y in zip(ai, bi)])
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            fa, fb = freeze(a), freeze(b)
            if fa is fb:
                return TRUE
            return conj([self.in_(x, b, None) for x in a.items] + [self.in_(x, a, None) for x in b.items])
        if isinstance(a, Inst) and isinstance(b, Inst):
            if a.cls is b.cls and isinstance(a.cls, ClassObj) and (a.cls.is_dataclass or a.cls.is_namedtuple):
                return conj([self.eqv(a.attrs[k], b.attrs[k]) for k in a.attrs if k in b.attrs])
            return B(a is b)
        kinds = {ListObj: "list", DictObj: "dict", SetObj: "set", TupleV: "tuple"}
        for x, y in ((a, b), (b, a)):
            if isinstance(x, K) and type(y) in kinds:
                return FALSE
            if isinstance(x, K) and isinstance(y, (Inst, FnV, ClassObj, Ext, ModuleObj, TypeX)):
                if isinstance(y, Ext) and isinstance(x.v, int) and "." in y.name and not y.name.startswith("builtins."):
                    return mk("eq", freeze(y), x)
                return FALSE
        if isinstance(a, Ext) and isinstance(b, Ext):
            return B(a is b)
        if isinstance(a, (ClassObj, TypeX, Ext, FnV)) and isinstance(b, (ClassObj, TypeX, Ext, FnV)):
            return B(a is b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S) and isinstance(y, (ListObj, TupleV, SetObj)):
                s2 = self.facts.simp(x)
                if isinstance(s2, S) and s2.op in ("list", "tuple") and {"list": ListObj, "tuple": TupleV}[s2.op] is type(y):
                    return eq_atom(s2, freeze(y))
                if not y.items:
                    k = typeof(s2).kind
                    if k in ("list", "set", "tuple"):
                        return self.neg(truthy_atom(s2))
        return eq_atom(freeze(a), freeze(b))

    def in_(self, a, b, n):
        if isinstance(b, Ext) and b.name == "os.environ":
            return self.neg(none_atom(freeze(self.call_ext("os.getenv", [a], {}, n))))
        if isinstance(b, S):
            b = self.facts.simp(b)
        if isinstance(b, (ListObj, SetObj, TupleV, IterObj)):
            out = []
            for x in b.items:
                if isinstance(x, S) and x.op == "splat":
                    out.append(mk("in", freeze(a), x.a[0]))
                else:
                    out.append(self.eqv(a, x))
            return disj(out)
        if isinstance(b, DictObj):
            out = [self.eqv(a, k) for k, _ in b.pairs]
            if b.origin is not None:
                out.append(mk("in", freeze(a), b.origin))
            return disj(out)
        if isinstance(b, S) and b.op in ("list", "tuple", "set"):
            out = []
            for x in b.a:
                if isinstance(x, S) and x.op == "splat":
                    out.append(mk("in", freeze(a), x.a[0]))
                else:
                    out.append(self.eqv(a, x))
            return disj(out)
        if isinstance(b, S) and b.op == "sorted":
            return self.in_(a, b.a[0], n)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return B(a.v in b.v)
            except TypeError:
                self.raise_("TypeError", K("in"), n)
        if isinstance(b, K) and isinstance(b.v, (str, bytes)) and len(b.v) == 0:
            return FALSE
        if isinstance(b, Inst) and isinstance(b.cls, ClassObj):
            _, f = b.cls.find("__contains__")
            if f is not None:
                return truthy_atom(freeze(self.call(BoundV(b, f), [a], {}, n)))
        if isinstance(b, Inst) and isinstance(b.cls, Ext) and b.cls.name == "argparse.Namespace" and isinstance(a, K) and "$ns" not in b.attrs:
            return B(a.v in b.attrs)
        if isinstance(a, K) and isinstance(a.v, str) and isinstance(b, S) and b.op == "cat":
            if any(isinstance(p, K) and a.v in p.v for p in b.a):
                return TRUE
        return mk("in", freeze(a), freeze(b))

    def ex_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr), n)

    def binop(self, op, a, b, n):
        if self.cfg.bin_hook is not None and not self.loading:
            r = self.cfg.bin_hook(self, op, a, b)
            if r is not None:
                return r
        for x in (a, b):
            if isinstance(x, S) and x.op in ("ite", "or") and not self.lazy:
                other = b if x is a else a
                if isinstance(other, (ListObj, TupleV, SetObj, DictObj)):
                    s = self.split(x)
                    if x is a:
                        a = s
                    else:
                        b = s
        if isinstance(a, K) and isinstance(b, K) and not (isinstance(op, ast.Mult) and isinstance(a.v, (str, bytes)) and b.v > 10000):
            try:
                f = {ast.Add: lambda: a.v + b.v, ast.Sub: lambda: a.v - b.v, ast.Mult: lambda: a.v * b.v,
                     ast.FloorDiv: lambda: a.v // b.v, ast.Mod: lambda: a.v % b.v, ast.Div: lambda: a.v / b.v,
                     ast.BitOr: lambda: a.v | b.v, ast.BitAnd: lambda: a.v & b.v, ast.BitXor: lambda: a.v ^ b.v,
                     ast.LShift: lambda: a.v << b.v, ast.RShift: lambda: a.v >> b.v, ast.Pow: lambda: a.v ** b.v}[type(op)]
                return K(f())
            except (TypeError, ZeroDivisionError) as e:
                self.raise_(type(e).__name__, K(str(e)), n)
        if isinstance(op, ast.Add):
            if isinstance(a, (ListObj,)) or isinstance(b, ListObj):
                return ListObj(list(self.iter_items(a)) + list(self.iter_items(b)), self.epoch)
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
            ta, tb = typeof(freeze(a)).kind, typeof(freeze(b)).kind
            if ta == "str" or tb == "str":
                return cat(self.to_str(a), self.to_str(b))
            if ta == "bytes" and tb == "bytes":
                return self.extmod.bcat(freeze(a), freeze(b))
            if ta == "list" or tb == "list":
                return ListObj(list(self.iter_items(a)) + list(self.iter_items(b)), self.epoch)
        if isinstance(op, ast.Mod) and typeof(freeze(a)).kind == "str" and isinstance(a, K):
            items = b.items if isinstance(b, TupleV) else [b]
            parts = a.v.split("%s")
            if len(parts) == len(items) + 1 and "%" not in "".join(parts):
                out = [K(parts[0])]
                for x, p in zip(items, parts[1:]):
                    out += [self.to_str(x), K(p)]
                return cat(*out)
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd)) and (isinstance(a, (SetObj, DictObj)) or isinstance(b, (SetObj, DictObj))):
            if isinstance(a, DictObj) and isinstance(op, ast.BitOr):
                d = DictObj(a.pairs, self.epoch, a.origin)
                self.dict_update(d, b)
                return d
            return self.set_op(op, a, b, n)
        if isinstance(op, ast.Mult) and isinstance(a, ListObj) and isinstance(b, K):
            return ListObj(a.items * b.v, self.epoch)
        if isinstance(op, ast.BitOr) and isinstance(a, (ClassObj, Ext, TypeX)):
            return TypeX("Union", [a, b if not (isinstance(b, K) and b.v is None) else Ext("builtins.NoneType")])
        if isinstance(op, ast.Div) and isinstance(a, S):
            # pathlib-style join
            return mk("bin", "Div", freeze(a), freeze(b))
        return mk("bin", type(op).__name__, freeze(a), freeze(b))

    def set_add(self, s, x):
        self.touch(s)
        if not isinstance(x, S) or x.op != "splat":
            for y in s.items:
                if isinstance(y, S) and y.op == "splat":
                    continue
                e = self.eqv(x, y)
                if e is TRUE or (isinstance(e, S) and self.facts.known(e)):
                    return
        elif x in s.items:
            return
        s.items.append(x)

    def set_op(self, op, a, b, n):
        ai, bi = list(self.iter_items(a)), list(self.iter_items(b))
        r = SetObj([], self.epoch)
        if isinstance(op, ast.BitOr):
            for x in ai + bi:
                self.set_add(r, x)
            return r
        bset = TupleV(bi)
        for x in ai:
            if isinstance(x, S) and x.op == "splat":
                if isinstance(op, ast.Sub):
                    if not bi:
                        r.items.append(x)
                    else:
                        r.items.append(mk("splat", mk("setdiff", x.a[0], freeze(SetObj(bi, self.epoch)))))
                else:
                    r.items.append(mk("splat", mk("setand", x.a[0], freeze(SetObj(bi, self.epoch)))))
                continue
            inb = self.decide_bool(self.in_(x, bset, n))
            if inb == isinstance(op, ast.BitAnd):
                r.items.append(x)
        return r

    def ex_Subscript(self, n, fr):
        base = self.ev(n.value, fr)
        if isinstance(base, (Ext, ClassObj, TypeX)):
            if isinstance(base, Ext) and (base.name.startswith("typing.") or base.name.startswith("builtins.") or base.name.startswith("collections.") or base.name in ("subprocess.Popen", "os.PathLike")):
                return self.type_subscript(base, n.slice, fr)
            if isinstance(base, TypeX):
                return base
        idx = self.ev_index(n.slice, fr)
        return self.getitem(base, idx, n)

    def type_subscript(self, base, sl, fr):
        nm = base.name.split(".")[-1]
        try:
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            args = []
            for e in elts:
                if isinstance(e, ast.Constant) and isinstance(e.value, str):
                    args.append(K(e.value))
                elif isinstance(e, ast.List):
                    args.append(K(ast.unparse(e)))
                else:
                    args.append(self.ev(e, fr))
        except (AbsRaise, Unsupported):
            args = [K(ast.unparse(sl))]
        if nm == "Optional":
            return TypeX("Union", [args[0], Ext("builtins.NoneType")])
        if nm == "Union":
            return TypeX("Union", [Ext("builtins.NoneType") if isinstance(a, K) and a.v is None else a for a in args])
        return TypeX(nm.lower() if nm in ("List", "Dict", "Tuple", "Set", "Type") else nm, args)

    def ev_index(self, sl, fr):
        if isinstance(sl, ast.Slice):
            return ("slice",
                    self.ev(sl.lower, fr) if sl.lower else NONE,
                    self.ev(sl.upper, fr) if sl.upper else NONE,
                    self.ev(sl.step, fr) if sl.step else NONE)
        return self.ev(sl, fr)

    def getitem(self, base, idx, n):
        if isinstance(base, S):
            base = self.facts.simp(base)
            if isinstance(base, S) and base.op in ("ite", "or"):
                base = self.split(base)
        if isinstance(idx, tuple):
            _, lo, hi, st = idx
            if isinstance(base, (ListObj, TupleV)) and all(isinstance(x, K) for x in (lo, hi, st)):
                if not any(isinstance(x, S) and x.op == "splat" for x in base.items):
                    r = list(base.items)[slice(lo.v, hi.v, st.v)]
                    return ListObj(r, self.epoch) if isinstance(base, ListObj) else TupleV(r)
            if isinstance(base, K) and all(isinstance(x, K) for x in (lo, hi, st)):
                return K(base.v[slice(lo.v, hi.v, st.v)])
            f = freeze(base)
            if all(isinstance(x, K) and x.v is None for x in (lo, hi, st)):
                return f
            # v[:len(v)] is v
            if isinstance(hi, S) and hi.op == "len" and hi.a[0] is f and isinstance(lo, K) and lo.v in (None, 0) and st is NONE:
                return f
            if isinstance(f, S) and f.op == "call" and f.a[0] == "struct.pack" and isinstance(hi, K) and lo is NONE:
                from .ext import fmt_size
                if fmt_size(f.a[1]) == hi.v:
                    return f
            if isinstance(f, S) and f.op == "cat" and st is NONE and isinstance(lo, K) and isinstance(hi, K):
                if isinstance(f.a[0], K) and lo.v in (None, 0) and isinstance(hi.v, int) and 0 <= hi.v <= len(f.a[0].v):
                    return K(f.a[0].v[:hi.v])
                if isinstance(f.a[-1], K) and hi.v is None and isinstance(lo.v, int) and lo.v < 0 and -lo.v <= len(f.a[-1].v):
                    return K(f.a[-1].v[lo.v:])
                if isinstance(f.a[0], K) and hi.v is None and isinstance(lo.v, int) and 0 <= lo.v <= len(f.a[0].v):
                    return cat(K(f.a[0].v[lo.v:]), *f.a[1:])
            r = mk("slice", f, freeze(lo), freeze(hi), freeze(st))
            return r
        if isinstance(base, DictObj):
            return self.dict_get(base, idx, n)
        if isinstance(base, (ListObj, TupleV)) or (isinstance(base, Inst) and isinstance(base.cls, ClassObj) and base.cls.is_namedtuple):
            items = base.items if not isinstance(base, Inst) else [base.attrs[f.v] for f in base.cls.vars["_fields"].items]
            if isinstance(idx, K):
                if not any(isinstance(x, S) and x.op == "splat" for x in items):
                    try:
                        return items[idx.v]
                    except IndexError:
                        self.raise_("IndexError", K("list index out of range"), n)
                    except TypeError:
                        self.raise_("TypeError", K("list indices"), n)
                if isinstance(idx.v, int) and items:
                    if idx.v >= 0 and not any(isinstance(x, S) and x.op == "splat" for x in items[:idx.v + 1]) and len(items) > idx.v:
                        return items[idx.v]
                    if idx.v < 0 and len(items) >= -idx.v and not any(isinstance(x, S) and x.op == "splat" for x in items[idx.v:]):
                        return items[idx.v]
            return mk("item", freeze(base), freeze(idx))
        if isinstance(base, K):
            if isinstance(idx, K):
                try:
                    return K(base.v[idx.v])
                except (IndexError, KeyError, TypeError) as e:
                    self.raise_(type(e).__name__, K(str(e)), n)
        if isinstance(base, Inst) and isinstance(base.cls, ClassObj):
            _, f = base.cls.find("__getitem__")
            if f is not None:
                return self.call(BoundV(base, f), [idx], {}, n)
        if isinstance(base, ClassObj):
            return base
        if isinstance(base, S):
            fi = freeze(idx)
            key = (base, ("item", fi))
            if key in self.symattrs:
                return self.symattrs[key]
            if base.op in ("list", "tuple") and isinstance(fi, K) and isinstance(fi.v, int) and not any(isinstance(x, S) and x.op == "splat" for x in base.a):
                try:
                    return base.a[fi.v]
                except IndexError:
                    self.raise_("IndexError", K("index"), n)
            h = self.extmod.item_model(self, base, fi, n)
            if h is not None:
                return h
            if base.op == "cat" and isinstance(fi, K) and isinstance(fi.v, int):
                if isinstance(base.a[0], K) and 0 <= fi.v < len(base.a[0].v):
                    return K(base.a[0].v[fi.v])
                if isinstance(base.a[-1], K) and fi.v < 0 and -fi.v <= len(base.a[-1].v):
                    return K(base.a[-1].v[fi.v])
            if isinstance(fi, K) and isinstance(fi.v, int) and typeof(base).elem is not None:
                return self.elem_of(base, fi.v)
            self.maybe_raise("item:" + base.op, n)
            return mk("item", base, fi)
        if isinstance(base, Ext) and base.name == "os.environ":
            v = self.call_ext("os.getenv", [idx], {}, n)
            if self.truth(none_atom(freeze(v))):
                self.raise_("KeyError", freeze(idx), n)
            return v
        if isinstance(base, Ext):
            return mk("item", freeze(base), freeze(idx))
        raise Unsupported(f"subscript on {type(base).__name__} at {self.loc(n)}")

    def dict_get(self, d, key, n, default=None, has_default=False):
        fk = freeze(key)
        for k, v in d.pairs:
            if freeze(k) is fk:
                return v
        for k, v in d.pairs:
            e = self.eqv(key, k)
            if self.decide_bool(e):
                return v
        if d.origin is not None:
            t = mk("in", fk, d.origin)
            if self.decide(t):
                return mk("item", d.origin, fk)
        if has_default:
            return default
        self.raise_("KeyError", fk if isinstance(fk, K) else NONE, n)

    def setitem(self, base, idx, v, n):
        if isinstance(base, S) and base.op in ("ite", "or"):
            base = self.split(base)
        if isinstance(base, DictObj):
            fk = freeze(idx)
            self.touch(base)
            for i, (k, _) in enumerate(base.pairs):
                if freeze(k) is fk:
                    base.pairs[i] = (k, v)
                    return
            for i, (k, _) in enumerate(base.pairs):
                if self.decide_bool(self.eqv(idx, k)):
                    base.pairs[i] = (k, v)
                    return
            base.pairs.append((idx, v))
            return
        if isinstance(base, ListObj):
            self.touch(base)
            if isinstance(idx, K) and isinstance(idx.v, int) and -len(base.items) <= idx.v < len(base.items):
                base.items[idx.v] = v
                return
            if isinstance(idx, tuple) and all(isinstance(x, K) for x in idx[1:]):
                base.items[slice(idx[1].v, idx[2].v, idx[3].v)] = list(self.iter_items(v))
                return
            raise Unsupported("list store")
        if isinstance(base, S):
            fi = freeze(idx) if not isinstance(idx, tuple) else mk("sliceidx", *[freeze(x) for x in idx[1:]])
            self.symattrs[(base, ("item", fi))] = v
            self.emit("setitem", show(base), {"base": base, "key": fi, "value": v}, n)
            return
        if isinstance(base, Inst) and isinstance(base.cls, ClassObj):
            _, f = base.cls.find("__setitem__")
            if f is not None:
                self.call(BoundV(base, f), [idx, v], {}, n)
                return
        if isinstance(base, Ext):
            self.emit("setitem", base.name, {"key": idx, "value": v}, n)
            return
        raise Unsupported(f"store into {type(base).__name__}")

    def delitem(self, base, idx, n):
        if isinstance(base, DictObj):
            fk = freeze(idx)
            self.touch(base)
            for i, (k, _) in enumerate(base.pairs):
                if freeze(k) is fk or self.decide_bool(self.eqv(idx, k)):
                    del base.pairs[i]
                    return
            self.raise_("KeyError", fk, n)
        if isinstance(base, ListObj):
            self.touch(base)
            if isinstance(idx, K):
                del base.items[idx.v]
                return
            if isinstance(idx, tuple) and all(isinstance(x, K) for x in idx[1:]):
                del base.items[slice(idx[1].v, idx[2].v, idx[3].v)]
                return
        self.emit("delitem", "?", {"base": base}, n)

    def dict_update(self, d, other):
        self.touch(d)
        if isinstance(other, S):
            other = self.split(other)
        if isinstance(other, DictObj):
            if other.origin is not None:
                if d.origin is None and not d.pairs:
                    d.origin = other.origin
                else:
                    d.origin = mk("merged", freeze(DictObj(d.pairs, 0, d.origin)), freeze(other))
                    d.pairs = [(k, v) for k, v in d.pairs if False]
            for k, v in other.pairs:
                self.setitem(d, k, v, None)
            return
        items = self.try_items(other) if not isinstance(other, S) else None
        if items is not None:
            for it in items:
                self.setitem(d, self.getitem(it, K(0), None), self.getitem(it, K(1), None), None)
            return
        f = freeze(other)
        if d.origin is None and not d.pairs:
            d.origin = f
        else:
            d.origin = mk("merged", freeze(DictObj(d.pairs, 0, d.origin)), f)
            d.pairs = []

    # comprehensions
    def ex_ListComp(self, n, fr):
        return ListObj(self.comp(n, lambda f: self.ev(n.elt, f), fr), self.epoch)

    def ex_GeneratorExp(self, n, fr):
        l = ListObj(self.comp(n, lambda f: self.ev(n.elt, f), fr), self.epoch)
        l.isiter = True
        return l

    def ex_SetComp(self, n, fr):
        s = SetObj([], self.epoch)
        for x in self.comp(n, lambda f: self.ev(n.elt, f), fr):
            self.set_add(s, x)
        return s

    def ex_DictComp(self, n, fr):
        d = DictObj([], self.epoch)
        items = self.comp(n, lambda f: TupleV([self.ev(n.key, f), self.ev(n.value, f)]), fr)
        for it in items:
            if isinstance(it, TupleV):
                self.setitem(d, it.items[0], it.items[1], n)
            else:
                d.origin = it if d.origin is None else mk("merged", d.origin, it)
        return d

    def comp(self, n, elt, fr):
        env = Env(fr.env, fr.module, self.epoch)
        f2 = Frame(fr.fn, env, fr.module, fr.name)
        f2.owner, f2.self_ = fr.owner, fr.self_
        f2.node = n
        self.frames.append(f2)
        out = []
        try:
            self._comp(n.generators, 0, elt, f2, out)
        finally:
            self.frames.pop()
        return out

    def _comp(self, gens, i, elt, f2, out):
        if i == len(gens):
            out.append(elt(f2))
            return
        g = gens[i]
        it = self.ev(g.iter, f2)
        items = self.try_items(it)
        if items is None:
            items = [mk("splat", freeze(it))]
        for x in items:
            if isinstance(x, S) and x.op == "splat":
                # comprehension over an unknown collection: keep it symbolic
                el = self.elem_of(x.a[0])
                self.assign(g.target, el, f2)
                saved = self.facts
                self.facts = saved.copy()
                self.lazy += 1
                try:
                    sub = []
                    conds = []
                    for c in g.ifs:
                        conds.append(truthy_atom(freeze(self.ev(c, f2))))
                    for c in conds:
                        if isinstance(c, S):
                            self.facts.assume(c, True)
                        elif not c.v:
                            raise _Skip()
                    self._comp(gens, i + 1, elt, f2, sub)
                    body = freeze(sub[0]) if len(sub) == 1 else mk("multi", *[freeze(q) for q in sub])
                    if body is el and not conds:
                        out.append(x)
                    else:
                        out.append(mk("splat", mk("comp", body, conj(conds), x.a[0])))
                except _Skip:
                    pass
                except (LazyAbort, AbsRaise, Unsupported, Infeasible):
                    self.lazy -= 1
                    self.facts = saved
                    try:
                        # effects or decisions inside of the comprehension: one generic element
                        t = truthy_atom(x.a[0])
                        if self.decide_bool(t):
                            if all(self.cond(c, f2) for c in g.ifs):
                                self._comp(gens, i + 1, elt, f2, out)
                    finally:
                        self.lazy += 1
                finally:
                    self.lazy -= 1
                    self.facts = saved if self.lazy else self.facts if self.facts is not saved and False else saved
                continue
            self.assign(g.target, x, f2)
            if all(self.cond(c, f2) for c in g.ifs):
                self._comp(gens, i + 1, elt, f2, out)

    def ex_Await(self, n, fr):
        return self.ev(n.value, fr)

    def ex_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else NONE
        f = fr
        if f.on_yield is not None:
            return f.on_yield(v)
        if f.yields is None:
            for g in reversed(self.frames):
                if g.yields is not None or g.on_yield is not None:
                    f = g
                    break
        if f.on_yield is not None:
            return f.on_yield(v)
        f.yields.append(v)
        return NONE

    def ex_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        for x in self.iter_items(v):
            fr.yields.append(x)
        return NONE

    # -- iteration ----------------------------------------------------------------
    def try_items(self, v):
        """Concrete sequence of elements, or None when the collection is unknown."""
        if isinstance(v, S):
            v = self.facts.simp(v)
            if isinstance(v, S) and v.op in ("ite", "or"):
                v = self.split(v)
        if isinstance(v, SetObj) and self.cfg.set_order is not None:
            return list(self.cfg.set_order(self, v.items))
        if isinstance(v, (ListObj, TupleV, SetObj)):
            return list(v.items)
        if isinstance(v, IterObj):
            r = v.items[v.pos:]
            self.touch(v)
            v.pos = len(v.items)
            return r
        if isinstance(v, DictObj):
            r = [k for k, _ in v.pairs]
            if v.origin is not None:
                r.append(mk("splat", v.origin))
            return r
        if isinstance(v, K):
            if isinstance(v.v, (str, bytes)):
                return [K(x) for x in v.v]
            if isinstance(v.v, (tuple, list)):
                return [K(x) for x in v.v]
            self.raise_("TypeError", K("not iterable"))
        if isinstance(v, Inst) and isinstance(v.cls, ClassObj):
            if v.cls.is_namedtuple:
                return [v.attrs[f.v] for f in v.cls.vars["_fields"].items]
            _, f = v.cls.find("__iter__")
            if f is not None:
                return self.try_items(self.call(BoundV(v, f), [], {}, None))
        if isinstance(v, ClassObj) and v.is_enum:
            return [Inst(v, {"name": K(k), "value": x}, self.epoch) for k, x in v.vars.items() if not k.startswith("_") and isinstance(x, (K, S))]
        if isinstance(v, S):
            if self.cfg.iter_hook is not None:
                r = self.cfg.iter_hook(self, v)
                if r is not None:
                    return r
            if v.op in ("list", "tuple", "set"):
                return list(v.a)
            if v.op == "enumerate":
                pass
        return None

    def iter_items(self, v):
        r = self.try_items(v)
        if r is None:
            return [mk("splat", freeze(v))]
        return r

    # -- attributes ------------------------------------------------------------------
    def getattr_(self, base, name, n):
        if isinstance(base, S):
            base = self.facts.simp(base)
            if isinstance(base, S) and base.op == "cyclic":
                base = self.resolve_cyclic(base)
            if isinstance(base, S) and base.op in ("ite", "or") and typeof(base).kind not in ("str", "bytes", "list", "int"):
                base = self.split(base)
        if isinstance(base, ModuleObj):
            if name in base.vars:
                v = base.vars[name]
                if isinstance(v, S) and v.op == "cyclic":
                    v = self.resolve_cyclic(v)
                return v
            sub = self.module(base.name + "." + name)
            if sub is not None:
                return sub
            if name in base.undetermined:
                raise Unsupported(f"{base.name}.{name} is undetermined")
            self.raise_("AttributeError", K(name), n)
        if isinstance(base, Ext):
            if name == "__name__":
                return K(base.name.split(".")[-1])
            return self.extmod.ext_attr(self, base, name)
        if isinstance(base, Inst):
            if self.cfg.dunder and not self.loading and isinstance(base.cls, ClassObj):
                _, g = base.cls.find("__getattribute__")
                if isinstance(g, FnV):
                    try:
                        return self.call(BoundV(base, g), [K(name)], {}, n)
                    except AbsRaise as e:
                        _, h = base.cls.find("__getattr__")
                        if not isinstance(h, FnV) or "builtins.AttributeError" not in self.class_names(e.exc.cls):
                            raise
                        return self.call(BoundV(base, h), [K(name)], {}, n)
            return self.inst_attr(base, name, n)
        if isinstance(base, ClassObj):
            return self.class_attr(base, name, n)
        if isinstance(base, SuperV):
            owner = base.owner
            cls = base.self_.cls if isinstance(base.self_, Inst) else base.self_ if isinstance(base.self_, ClassObj) else self.classes.get(typeof(base.self_).cls) if isinstance(base.self_, S) else owner
            mro = cls.mro() if isinstance(cls, ClassObj) else owner.mro()
            if owner in mro:
                mro = mro[mro.index(owner) + 1:]
            for c in mro:
                if isinstance(c, ClassObj) and name in c.vars:
                    f = c.vars[name]
                    if isinstance(f, FnV) and f.kind == "class":
                        return BoundV(cls, f)
                    return BoundV(base.self_, f)
            for c in mro:
                if isinstance(c, Ext):
                    return MethV(base, name)
            return MethV(base, name)
        if isinstance(base, FnV):
            if name in base.attrs:
                return base.attrs[name]
            if name in ("__name__",):
                return K(base.name)
            if name == "__qualname__":
                return K(base.qualname)
            if name == "__wrapped__" and base.wrapped is not None:
                return base.wrapped
            if name == "__doc__":
                return NONE
            if name == "__annotations__":
                return DictObj([], self.epoch)
            if name == "__module__":
                return K(base.module.name)
            self.raise_("AttributeError", K(name), n)
        if isinstance(base, S):
            key = (base, name)
            if key in self.symattrs:
                return self.symattrs[key]
            if self.cfg.attr_hook is not None:
                r = self.cfg.attr_hook(self, base, name)
                if r is not None:
                    return r
            ty = typeof(base)
            if ty.kind == "inst":
                c = self.classes.get(ty.cls)
                if c is not None:
                    if ty.nullable and self.facts.isnone(base):
                        self.raise_("AttributeError", K(f"'NoneType' object has no attribute '{name}'"), n)
                    owner, f = c.find(name)
                    if isinstance(f, FnV):
                        if f.kind == "property":
                            return self.call(BoundV(base, f), [], {}, n)
                        if f.kind == "static":
                            return f
                        if f.kind == "class":
                            return BoundV(c, f)
                        return BoundV(base, f)
                    if f is not None and not isinstance(f, (K,)) and name not in c.ann_nodes and not self.is_field(c, name):
                        return f
                    t = mk("attr", base, name)
                    if t not in TYPES:
                        TYPES[t] = self.attr_ty(c, name)
                    return t
            h = self.extmod.attr_model(self, base, name)
            if h is not None:
                return h
            if base.op == "obj":
                for x in base.a[1:]:
                    if x.op == "fld" and x.a[0] == name:
                        return x.a[1]
            return mk("attr", base, name)
        if isinstance(base, K):
            if base.v is None:
                if name in ("__class__",):
                    return Ext("builtins.NoneType")
                self.raise_("AttributeError", K(f"'NoneType' object has no attribute '{name}'"), n)
            if not hasattr(base.v, name):
                self.raise_("AttributeError", K(name), n)
            return MethV(base, name)
        if isinstance(base, TypeX):
            if name == "__origin__":
                return Ext("builtins." + str(base.origin))
            if name == "__args__":
                return TupleV(base.args)
        if isinstance(base, BoundV):
            if name == "__self__":
                return base.self_
            if name == "__func__":
                return base.fn
            return self.getattr_(base.fn, name, n)
        if isinstance(base, PartialV):
            if name == "func":
                return base.fn
        return MethV(base, name)

    def is_field(self, c, name):
        return any(isinstance(x, ClassObj) and name in x.ann_nodes for x in c.mro())

    def attr_ty(self, c, name):
        for x in c.mro():
            if not isinstance(x, ClassObj):
                continue
            if name in x.ann_nodes:
                return self.ty_from_ann(x.ann_nodes[name], x.module)
            init = x.vars.get("__init__")
            if isinstance(init, FnV):
                anns = {a.arg: a.annotation for a in init.node.args.args + init.node.args.kwonlyargs}
                for s in ast.walk(init.node):
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Attribute) and isinstance(s.target.value, ast.Name) and s.target.value.id == "self" and s.target.attr == name:
                        return self.ty_from_ann(s.annotation, x.module)
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr == name:
                                if isinstance(s.value, ast.Name) and anns.get(s.value.id) is not None:
                                    return self.ty_from_ann(anns[s.value.id], x.module)
                                if isinstance(s.value, ast.Constant) and isinstance(s.value.value, bool):
                                    return T_BOOL
        return T_ANY

    def ty_from_ann(self, ann, module, depth=0):
        if ann is None or depth > 5:
            return T_ANY
        if isinstance(ann, ast.Constant):
            if ann.value is None:
                return Ty("none", True)
            if isinstance(ann.value, str):
                try:
                    return self.ty_from_ann(ast.parse(ann.value, mode="eval").body, module, depth + 1)
                except SyntaxError:
                    return T_ANY
            return T_ANY
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            l, r = self.ty_from_ann(ann.left, module, depth + 1), self.ty_from_ann(ann.right, module, depth + 1)
            if r.kind == "none":
                return Ty(l.kind, True, l.cls, l.elem)
            if l.kind == "none":
                return Ty(r.kind, True, r.cls, r.elem)
            return Ty("any", l.nullable or r.nullable)
        if isinstance(ann, ast.Subscript):
            h = ast.unparse(ann.value).split(".")[-1]
            if h == "Optional":
                t = self.ty_from_ann(ann.slice, module, depth + 1)
                return Ty(t.kind, True, t.cls, t.elem)
            if h == "Union":
                ts = [self.ty_from_ann(e, module, depth + 1) for e in (ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice])]
                nn = [t for t in ts if t.kind != "none"]
                nullable = len(nn) != len(ts) or any(t.nullable for t in nn)
                if len(nn) == 1:
                    return Ty(nn[0].kind, nullable, nn[0].cls, nn[0].elem)
                return Ty("any" if nullable else "nonnull", nullable)
            if h in ("list", "List", "Iterable", "Sequence", "Collection"):
                return Ty("list", False, None, self.ty_from_ann(ann.slice, module, depth + 1))
            if h in ("dict", "Dict"):
                return Ty("dict")
            if h in ("set", "Set"):
                return Ty("set")
            if h in ("tuple", "Tuple"):
                return Ty("tuple")
            if h in ("Callable", "Type", "type"):
                return Ty("opaque")
            if h == "Literal":
                return T_STR
            if h == "IO":
                return Ty("opaque")
            return T_ANY
        if isinstance(ann, ast.Attribute) or isinstance(ann, ast.Name):
            nm = ast.unparse(ann)
            if nm in ("str", "bytes", "int", "bool", "float"):
                return Ty(nm)
            if nm in ("list", "dict", "set", "tuple"):
                return Ty(nm)
            if nm in ("Any", "typing.Any"):
                return T_ANY
            # resolve class
            head = nm.split(".")
            v = module.vars.get(head[0])
            for p in head[1:]:
                if isinstance(v, ModuleObj):
                    v = v.vars.get(p)
                else:
                    v = None
            if isinstance(v, S) and v.op == "cyclic":
                v = self.resolve_cyclic(v)
            if isinstance(v, ClassObj):
                return Ty("inst", False, v.qualname)
            if isinstance(v, PyFn) and v.name.startswith("NewType:"):
                return Ty(v.name.split(":")[1])
            if v is None:
                # TYPE_CHECKING-only import
                for q, c in self.classes.items():
                    if q.split(".")[-1] == head[-1]:
                        return Ty("inst", False, q)
            if isinstance(v, Ext) and v.name.startswith("typing."):
                return T_ANY
            if isinstance(v, Ext):
                return Ty("opaque")
        return T_ANY

    def inst_attr(self, base, name, n, default=None):
        if isinstance(base.cls, ClassObj):
            owner, f = base.cls.find(name)
            if isinstance(f, FnV) and f.kind == "property":
                return self.call(BoundV(base, f), [], {}, n)
        if name in base.attrs:
            return base.attrs[name]
        if name == "__dict__":
            return self.inst_dict(base)
        if name == "__class__":
            return base.cls
        if name == "__annotations__" and isinstance(base.cls, ClassObj):
            return base.cls.annotations
        if isinstance(base.cls, ClassObj):
            if f is not None:
                if isinstance(f, FnV):
                    if f.kind == "static":
                        return f
                    if f.kind == "class":
                        return BoundV(base.cls, f)
                    return BoundV(base, f)
                if isinstance(f, TupleV) and len(f.items) == 2 and f.items[1] is K("$wrapped_descriptor"):
                    return f.items[0]
                return f
            if name in ("_replace", "_asdict", "_fields"):
                return MethV(base, name)
            owner, g = base.cls.find("__getattr__")
            if isinstance(g, FnV):
                return self.call(BoundV(base, g), [K(name)], {}, n)
        if "builtins.BaseException" in self.class_names(base.cls):
            if name in ("with_traceback", "add_note"):
                return MethV(base, name)
            if name in ("__cause__", "__context__", "__traceback__"):
                return mk("attr", mk("exc", K(cls_name(base.cls))), name)
            if "$any" in base.attrs or not isinstance(base.cls, ClassObj):
                if "$any" not in base.attrs and name.startswith("__fora"):
                    self.raise_("AttributeError", K(name), n)
                return mk("attr", mk("exc", base.attrs.get("$any", K(base.ident))), name)
        if name == "__setattr__" and (base.attrs.get("$ns") or isinstance(base.cls, ClassObj)):
            return PyFn("__setattr__", lambda i, a, k, nn: (i.setattr_(base, a[0].v, a[1], nn, raw=True), NONE)[1])
        if name in ("__getattribute__", "__getattr__") and base.attrs.get("$ns"):
            return PyFn(name, lambda i, a, k, nn: i.getattr_(base, a[0].v, nn))
        if not isinstance(base.cls, ClassObj):
            h = self.extmod.inst_attr_model(self, base, name)
            if h is not None:
                return h
            if name in base.attrs:
                return base.attrs[name]
            if base.attrs.get("$ns"):
                self.raise_("AttributeError", K(name), n)
            return MethV(base, name)
        if any(isinstance(c, Ext) and c.name not in ("builtins.object", "typing.NamedTuple", "typing.Generic", "abc.ABC", "builtins.Exception") for c in base.cls.mro()):
            return MethV(base, name)
        if name == "__init__":
            return PyFn("object.__init__", lambda i, a, k, n: NONE)
        self.raise_("AttributeError", K(name), n)

    def inst_dict(self, base):
        return DictObj([(K(k), v) for k, v in base.attrs.items() if not k.startswith("$")], self.epoch)

    def class_attr(self, base, name, n):
        if name == "__name__" or name == "__qualname__":
            return K(base.name)
        if name == "__annotations__":
            return base.annotations
        if name == "__dict__":
            return DictObj([(K(k), v) for k, v in base.vars.items()], self.epoch)
        if name == "__module__":
            return K(base.module.name)
        if name == "__doc__":
            return NONE
        owner, f = base.find(name)
        if f is not None:
            if isinstance(f, FnV) and f.kind == "class":
                return BoundV(base, f)
            if base.is_enum and isinstance(f, (K, S)):
                return Inst(base, {"name": K(name), "value": f}, self.epoch)
            return f
        if name == "__mro__":
            return TupleV([c for c in base.mro()])
        if name == "__init__":
            return PyFn("object.__init__", lambda i, a, k, n: NONE)
        if name in ("_make",):
            return PyFn("_make", lambda i, a, k, nn: i.call(base, i.iter_items(a[0]), {}, nn))
        if any(isinstance(c, Ext) for c in base.mro()):
            for c in base.mro():
                if isinstance(c, Ext) and c.name not in ("typing.NamedTuple", "builtins.object"):
                    return Ext(c.name + "." + name)
        if name == "__dataclass_fields__" and base.is_dataclass:
            return DictObj([(K(fn), K(fn)) for fn, _, _ in self.dc_fields(base)], self.epoch)
        self.raise_("AttributeError", K(name), n)

    def setattr_(self, base, name, v, n, raw=False):
        if isinstance(base, S) and base.op in ("ite", "or"):
            base = self.split(base)
        if not raw and self.cfg.dunder and not self.loading and isinstance(base, Inst) and isinstance(base.cls, ClassObj):
            _, g = base.cls.find("__setattr__")
            if isinstance(g, FnV):
                self.call(BoundV(base, g), [K(name), v], {}, n)
                return
        if isinstance(base, ModuleObj):
            self.touch(base)
            base.vars[name] = v
            self.emit("setglobal", base.name + "." + name, {"value": v}, n)
            return
        if isinstance(base, Inst):
            self.touch(base)
            if isinstance(base.cls, ClassObj):
                _, f = base.cls.find(name)
                if isinstance(f, FnV) and f.kind == "property" and "setter" in f.attrs:
                    self.call(BoundV(base, f.attrs["setter"]), [v], {}, n)
                    return
            base.attrs[name] = v
            self.emit("setattr", cls_name(base.cls) + "." + name, {"value": v}, n, raw=base)
            return
        if isinstance(base, ClassObj):
            self.touch(base)
            base.vars[name] = v
            return
        if isinstance(base, FnV):
            self.touch(base)
            base.attrs[name] = v
            return
        if isinstance(base, S):
            self.symattrs[(base, name)] = v
            self.emit("setattr", show(base) + "." + name, {"base": base, "value": v}, n)
            return
        if isinstance(base, K):
            self.raise_("AttributeError", K(name), n)
        self.emit("setattr", show(freeze(base)) + "." + name, {"base": base, "value": v}, n)

    # -- calls ------------------------------------------------------------------
    def ex_Call(self, n, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            for f in reversed(self.frames):
                if f.owner is not None:
                    return SuperV(f.owner, f.self_)
            raise Unsupported("super()")
        if isinstance(n.func, ast.Name) and n.func.id == "locals" and not n.args:
            f = fr
            if f.env.vars is f.module.vars:
                return DictObj([(K(k), v) for k, v in f.env.vars.items()], self.epoch)
            return DictObj([(K(k), v) for k, v in f.env.vars.items()], self.epoch)
        if isinstance(n.func, ast.Name) and n.func.id == "globals" and not n.args:
            return DictObj([(K(k), v) for k, v in fr.module.vars.items()], self.epoch)
        fn = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_items(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        extra = None
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, S):
                    v = self.split(v)
                if isinstance(v, DictObj):
                    for kk, vv in v.pairs:
                        fk = freeze(kk)
                        if not isinstance(fk, K):
                            raise Unsupported("non-constant ** key")
                        kwargs[fk.v] = vv
                    if v.origin is not None:
                        extra = v.origin
                elif isinstance(v, K) and v.v is None:
                    self.raise_("TypeError", K("** None"), n)
                else:
                    extra = freeze(v)
            else:
                kwargs[k.arg] = v
        if extra is not None:
            kwargs["**"] = extra
        fr.node = n
        return self.call(fn, args, kwargs, n)

    def call(self, fn, args, kwargs, n):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Unsupported("step budget exceeded")
        if n is not None and not self.loading:
            self.call_sites.add((self.frames[-1].module.name if self.frames else "?", getattr(n, "lineno", 0), getattr(n, "col_offset", 0)))
        if isinstance(fn, S):
            fn = self.facts.simp(fn)
            if isinstance(fn, S) and fn.op == "cyclic":
                fn = self.resolve_cyclic(fn)
            if isinstance(fn, S) and fn.op in ("ite", "or"):
                fn = self.split(fn)
        if isinstance(fn, BoundV):
            f = fn.fn
            if isinstance(f, FnV):
                return self.call_fn(f, [fn.self_] + list(args), kwargs, n)
            return self.call(f, [fn.self_] + list(args), kwargs, n)
        if isinstance(fn, FnV):
            return self.call_fn(fn, args, kwargs, n)
        if isinstance(fn, ClassObj):
            return self.instantiate(fn, args, kwargs, n)
        if isinstance(fn, PartialV):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.fn, list(fn.args) + list(args), kw, n)
        if isinstance(fn, PyFn):
            return fn.fn(self, args, kwargs, n)
        if isinstance(fn, Ext):
            return self.call_ext(fn.name, args, kwargs, n)
        if isinstance(fn, MethV):
            return self.extmod.call_method(self, fn.self_, fn.name, args, kwargs, n)
        if isinstance(fn, S):
            if fn.op == "attr":
                return self.extmod.call_method(self, fn.a[0], fn.a[1], args, kwargs, n)
            return self.extmod.call_symbolic(self, fn, args, kwargs, n)
        if isinstance(fn, Inst) and isinstance(fn.cls, ClassObj):
            _, f = fn.cls.find("__call__")
            if f is not None:
                return self.call(BoundV(fn, f), args, kwargs, n)
        if isinstance(fn, Inst):
            return self.extmod.call_symbolic(self, freeze(fn), args, kwargs, n)
        if isinstance(fn, TypeX):
            return self.call(Ext("builtins." + str(fn.origin)), args, kwargs, n)
        if isinstance(fn, K):
            self.raise_("TypeError", K("not callable"), n)
        raise Unsupported(f"call of {type(fn).__name__} at {self.loc(n)}")

    def call_ext(self, name, args, kwargs, n):
        name = canon_ext(name)
        h = self.cfg.ext.get(name)
        if h is not None:
            r = h(self, args, kwargs, n)
            if r is not None:
                return r
        h = self.ext_models.get(name)
        if h is not None:
            return h(self, args, kwargs, n)
        return self.extmod.default_ext(self, name, args, kwargs, n)

    def bind_args(self, fn, args, kwargs, n):
        """Bind call arguments to the parameters of fn; returns dict in declaration order."""
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        star_kw = kwargs.pop("**", None)
        splat = [i for i, x in enumerate(args) if isinstance(x, S) and x.op == "splat"]
        if splat and a.vararg is None:
            i = splat[0]
            src = args[i].a[0]
            fixed = args[:i]
            args = fixed + [self.elem_of(src, j) for j in range(len(names) - len(fixed))]
            args = args[:len(names)]
        for nm, v in zip(names, args):
            out[nm] = v
        rest = args[len(names):]
        if rest and a.vararg is None:
            self.raise_("TypeError", K(f"{fn.name}() takes too many positional arguments"), n)
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.raise_("TypeError", K(f"multiple values for argument '{k}'"), n)
                out[k] = kwargs.pop(k)
        if kwargs and a.kwarg is None:
            self.raise_("TypeError", K(f"{fn.name}() got an unexpected keyword argument {list(kwargs)[0]!r}"), n)
        nd = len(fn.defaults)
        for i, nm in enumerate(names):
            if nm not in out:
                j = i - (len(names) - nd)
                if star_kw is not None:
                    has_def = j >= 0
                    t = mk("kwitem", star_kw, K(nm))
                    if has_def:
                        t = mk("kwitem", star_kw, K(nm))
                    out[nm] = t
                elif j >= 0:
                    out[nm] = fn.defaults[j]
                else:
                    self.raise_("TypeError", K(f"{fn.name}() missing argument '{nm}'"), n)
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg not in out:
                if d is None:
                    self.raise_("TypeError", K(f"{fn.name}() missing keyword argument '{x.arg}'"), n)
                out[x.arg] = d
        if a.vararg is not None:
            out[a.vararg.arg] = TupleV(rest)
        if a.kwarg is not None:
            out[a.kwarg.arg] = DictObj([(K(k), v) for k, v in kwargs.items()], self.epoch, star_kw)
        return out

    def call_fn(self, fn, args, kwargs, n, on_yield=None):
        if fn.wrapped is not None and self.cfg.op_hook is not None and self.frames:
            r = self.cfg.op_hook(self, fn, args, kwargs, n)
            if r is not NotImplemented:
                return r
        h = self.cfg.intercepts.get(fn.qualname)
        if h is not None and not self.loading:
            bound = self.bind_args(fn, args, kwargs, n)
            r = h(self, bound, n, fn)
            if r is not NotImplemented:
                return r
        if fn.ctxmgr and on_yield is None:
            return CtxMgr("gen", fn, args, kwargs)
        if len(self.frames) > self.cfg.max_depth:
            raise Unsupported("call depth")
        if sum(1 for f in self.frames if f.fn is fn) > 6:
            raise Unsupported("recursion depth in " + fn.qualname)
        bound = self.bind_args(fn, args, kwargs, n)
        if fn.qualname in self.cfg.opaque_fns and not self.loading:
            self.emit("opaque", fn.qualname, bound, n)
            return self.fresh(fn.qualname, *bound.values())
        env = Env(fn.env, fn.module, self.epoch)
        env.vars = bound
        fr = Frame(fn, env, fn.module, fn.qualname)
        fr.owner = fn.owner
        if fn.owner is not None and bound:
            fr.self_ = next(iter(bound.values()))
        fr.on_yield = on_yield
        if fn.is_gen and on_yield is None:
            fr.yields = []
        if not self.loading:
            self.visited_fns.add(fn.qualname)
        # annotate parameter terms
        if not isinstance(fn.node, ast.Lambda):
            for x in fn.node.args.posonlyargs + fn.node.args.args + fn.node.args.kwonlyargs:
                v = bound.get(x.arg)
                if x.annotation is not None and isinstance(v, S) and v not in TYPES and v.op in ("kwitem", "elem", "res", "item"):
                    ty = self.ty_from_ann(x.annotation, fn.module)
                    if ty.kind != "any":
                        TYPES[v] = ty
        self.frames.append(fr)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fr)
            try:
                self.exec_block(fn.node.body, fr)
            except _Return as r:
                if fn.is_gen and on_yield is None:
                    l = ListObj(fr.yields, self.epoch)
                    l.isiter = True
                    return l
                return r.v
            if fn.is_gen and on_yield is None:
                l = ListObj(fr.yields, self.epoch)
                l.isiter = True
                return l
            return NONE
        finally:
            self.frames.pop()

    def dc_fields(self, cls):
        """(name, default value or None, annotation node/owner) of a dataclass / NamedTuple, base classes first."""
        out = {}
        for c in reversed([x for x in cls.mro() if isinstance(x, ClassObj)]):
            if not (c.is_dataclass or c.is_namedtuple):
                continue
            for nm, ann in c.ann_nodes.items():
                if "ClassVar" in ast.unparse(ann):
                    continue
                out[nm] = (nm, c.vars.get(nm), (ann, c))
        return list(out.values())

    def instantiate(self, cls, args, kwargs, n):
        h = self.cfg.intercepts.get(cls.qualname)
        if h is not None and not self.loading:
            r = h(self, {"args": args, "kwargs": kwargs}, n, cls)
            if r is not NotImplemented:
                return r
        if cls.is_enum:
            raise Unsupported("enum call")
        _, new = cls.find("__new__")
        if isinstance(new, FnV):
            raise Unsupported("__new__")
        inst = Inst(cls, {}, self.epoch)
        _, init = cls.find("__init__")
        names = self.class_names(cls)
        isexc = "builtins.BaseException" in names
        if init is not None:
            if isexc:
                inst.attrs["args"] = TupleV(args)
            self.call(BoundV(inst, init), args, kwargs, n)
            return inst
        if cls.is_dataclass or cls.is_namedtuple:
            fields = self.dc_fields(cls)
            args = list(args)
            kwargs = dict(kwargs)
            star = kwargs.pop("**", None)
            if len(args) > len(fields):
                self.raise_("TypeError", K("too many arguments"), n)
            for i, (nm, default, ann) in enumerate(fields):
                if i < len(args):
                    v = args[i]
                elif nm in kwargs:
                    v = kwargs.pop(nm)
                elif star is not None:
                    v = mk("kwitem", star, K(nm))
                    if v not in TYPES:
                        TYPES[v] = self.ty_from_ann(ann[0], ann[1].module)
                elif default is not None:
                    if isinstance(default, Inst) and isinstance(default.cls, Ext) and default.cls.name == "dataclasses.field":
                        if "default_factory" in default.attrs:
                            v = self.call(default.attrs["default_factory"], [], {}, n)
                        elif "default" in default.attrs:
                            v = default.attrs["default"]
                        else:
                            self.raise_("TypeError", K(f"missing argument {nm}"), n)
                    else:
                        v = default
                else:
                    self.raise_("TypeError", K(f"{cls.name}() missing argument '{nm}'"), n)
                inst.attrs[nm] = v
            if kwargs:
                self.raise_("TypeError", K(f"{cls.name}() got an unexpected keyword argument {list(kwargs)[0]!r}"), n)
            _, post = cls.find("__post_init__")
            if post is not None:
                self.call(BoundV(inst, post), [], {}, n)
            return inst
        if isexc:
            inst.attrs["args"] = TupleV(args)
            return inst
        if (args or kwargs) and not any(isinstance(c, Ext) and c.name != "builtins.object" for c in cls.mro()):
            self.raise_("TypeError", K(f"{cls.name}() takes no arguments"), n)
        return inst


class _Skip(Exception):
    pass


def _is_generator(fn):
    st = list(fn.body)
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


def _pure(n):
    if isinstance(n, (ast.Name, ast.Constant)):
        return True
    if isinstance(n, ast.Attribute):
        return _pure(n.value)
    if isinstance(n, ast.Compare):
        return _pure(n.left) and all(_pure(c) for c in n.comparators)
    if isinstance(n, ast.BoolOp):
        return all(_pure(v) for v in n.values)
    if isinstance(n, ast.UnaryOp):
        return _pure(n.operand)
    if isinstance(n, ast.IfExp):
        return _pure(n.test) and _pure(n.body) and _pure(n.orelse)
    if isinstance(n, ast.BinOp):
        return _pure(n.left) and _pure(n.right)
    if isinstance(n, ast.JoinedStr):
        return all(_pure(v.value) for v in n.values if isinstance(v, ast.FormattedValue))
    if isinstance(n, ast.Call):
        return isinstance(n.func, ast.Name) and n.func.id in ("str", "len", "isinstance", "cast", "int", "bool", "repr", "oct") and all(_pure(a) for a in n.args) and not n.keywords
    return False


_FUT: dict = {}


def _future_annotations(m):
    r = _FUT.get(m.name)
    if r is None:
        r = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(a.name == "annotations" for a in s.names) for s in m.tree.body)
        _FUT[m.name] = r
    return r


# --------------------------------------------------------------------------
# Path enumeration


class Exploration:
    def __init__(self):
        self.paths = []
        self.infeasible = 0
        self.cut = 0
        self.incomplete = []
        self.truncated = False


def explore(interp, cfg, entry, max_paths=None):
    """Enumerate all paths of ``entry(interp) -> value``. Returns an Exploration."""
    ex = Exploration()
    interp.cfg = cfg
    choices = []
    limit = max_paths or cfg.max_paths
    while True:
        interp.epoch += 1
        interp.trail = []
        interp.facts = Facts()
        interp.events = []
        interp.frames = []
        interp.choices = choices
        interp.pos = 0
        interp.lazy = 0
        interp.symattrs = {}
        interp.seq = 0
        interp.steps = 0
        interp.notes = {}
        p = Path()
        p.notes = interp.notes
        keep = True
        try:
            try:
                p.value = entry(interp)
                p.kind = "return"
                if not isinstance(p.value, (K, S)):
                    p.raw = p.value
            except AbsRaise as e:
                p.kind = "raise"
                p.exc = e.exc
                p.loc = e.loc
                p.excname = cls_name(e.exc.cls) if isinstance(e.exc, Inst) else "?"
                p.exc_names = interp.class_names(e.exc.cls) if isinstance(e.exc, Inst) else []
            except Infeasible:
                keep = False
                ex.infeasible += 1
            except CutPath:
                keep = False
                ex.cut += 1
            except Unsupported as e:
                p.kind = "incomplete"
                p.reason = str(e)
                ex.incomplete.append(str(e))
            except (_Return, _Break, _Continue) as e:
                p.kind = "incomplete"
                p.reason = "stray control flow"
                ex.incomplete.append(p.reason)
            except RecursionError:
                p.kind = "incomplete"
                p.reason = "recursion"
                ex.incomplete.append(p.reason)
            if keep and not interp.facts.consistent():
                keep = False
                ex.infeasible += 1
            if keep:
                p.facts = interp.facts
                p.events = interp.events
                p.symattrs = interp.symattrs
                if p.kind == "return":
                    p.frozen = freeze(p.value)
                cfg_final = getattr(cfg, "on_path_end", None)
                if cfg_final is not None:
                    cfg_final(interp, p)
                ex.paths.append(p)
        finally:
            interp.undo()
        # backtrack
        del choices[interp.pos:]
        while choices and choices[-1][0] + 1 >= choices[-1][1]:
            choices.pop()
        if not choices:
            break
        choices[-1][0] += 1
        if len(ex.paths) + ex.infeasible + ex.cut >= limit:
            ex.truncated = True
            break
    return ex
