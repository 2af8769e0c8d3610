"""Heap objects of the abstract interpreter."""
from __future__ import annotations
from .terms import V, K, S, mk, NONE


class Heap(V):
    """A mutable abstract object; mutations are logged so that a path can be undone."""
    __slots__ = ("epoch",)

    def snap(self):
        raise NotImplementedError

    def restore(self, s):
        raise NotImplementedError


class ListObj(Heap):
    __slots__ = ("items", "isiter")

    def __init__(self, items, epoch=0):
        self.items = list(items)
        self.epoch = epoch
        self.isiter = False

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items = s


class SetObj(Heap):
    __slots__ = ("items", "frozen")

    def __init__(self, items, epoch=0):
        self.items = list(items)
        self.epoch = epoch
        self.frozen = False

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items = s


class DictObj(Heap):
    __slots__ = ("pairs", "origin")

    def __init__(self, pairs=(), epoch=0, origin=None):
        self.pairs = list(pairs)  # list of (key value, value)
        self.epoch = epoch
        self.origin = origin  # term of unknown further content, or None

    def snap(self):
        return (list(self.pairs), self.origin)

    def restore(self, s):
        self.pairs, self.origin = s


class TupleV(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Env(Heap):
    __slots__ = ("vars", "parent", "globals_", "nonlocals", "isclass", "module")

    def __init__(self, parent, module, epoch=0, isclass=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.globals_ = ()
        self.nonlocals = ()
        self.isclass = isclass
        self.epoch = epoch

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = s


class ModuleObj(Heap):
    __slots__ = ("name", "vars", "path", "loaded", "tree", "undetermined")

    def __init__(self, name, path, tree, epoch=0):
        self.name = name
        self.path = path
        self.tree = tree
        self.vars = {}
        self.undetermined = set()      # names assigned by statements that could not be interpreted
        self.loaded = False
        self.epoch = epoch

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = s


class ClassObj(Heap):
    __slots__ = ("name", "qualname", "bases", "vars", "module", "node", "is_dataclass", "is_namedtuple", "annotations", "ann_nodes", "is_enum")

    def __init__(self, name, qualname, bases, module, node, epoch=0):
        self.name = name
        self.qualname = qualname
        self.bases = bases
        self.vars = {}
        self.module = module
        self.node = node
        self.is_dataclass = False
        self.is_namedtuple = False
        self.is_enum = False
        self.annotations = DictObj([], epoch)
        self.ann_nodes = {}
        self.epoch = epoch

    def snap(self):
        return (dict(self.vars), self.is_dataclass, self.is_namedtuple)

    def restore(self, s):
        self.vars, self.is_dataclass, self.is_namedtuple = s

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassObj):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassObj) and name in c.vars:
                return c, c.vars[name]
        return None, None


class Inst(Heap):
    __slots__ = ("cls", "attrs", "ident")
    _n = 0

    def __init__(self, cls, attrs=None, epoch=0):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.epoch = epoch
        Inst._n += 1
        self.ident = Inst._n

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s


class FnV(Heap):
    __slots__ = ("node", "env", "module", "qualname", "defaults", "kwdefaults", "owner", "name", "attrs", "kind", "wrapped", "is_gen", "ctxmgr")

    def __init__(self, node, env, module, qualname, name, defaults, kwdefaults, owner=None, epoch=0):
        self.node = node
        self.env = env
        self.module = module
        self.qualname = qualname
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner
        self.attrs = {}
        self.kind = "fn"  # fn / static / class / property
        self.wrapped = None
        self.is_gen = False
        self.ctxmgr = False
        self.epoch = epoch

    def snap(self):
        return (dict(self.attrs), self.kind, self.ctxmgr)

    def restore(self, s):
        self.attrs, self.kind, self.ctxmgr = s


class BoundV(V):
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn


class PartialV(V):
    __slots__ = ("fn", "args", "kwargs")

    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = args
        self.kwargs = kwargs


class PyFn(V):
    """A modelled callable implemented by the analyser."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn  # fn(interp, args, kwargs, node)


class MethV(V):
    """A method of a modelled/symbolic value, to be called."""
    __slots__ = ("self_", "name")

    def __init__(self, self_, name):
        self.self_ = self_
        self.name = name


class SuperV(V):
    __slots__ = ("owner", "self_")

    def __init__(self, owner, self_):
        self.owner = owner
        self.self_ = self_


_EXT: dict = {}


class Ext(V):
    """An external (not analysed) module member, by canonical dotted name."""
    __slots__ = ("name",)

    def __new__(cls, name):
        r = _EXT.get(name)
        if r is None:
            r = object.__new__(cls)
            r.name = name
            _EXT[name] = r
        return r

    def __repr__(self):
        return f"<{self.name}>"


_TX: dict = {}


class TypeX(V):
    """A typing construct: Optional[..], list[..], ..."""
    __slots__ = ("origin", "args")

    def __new__(cls, origin, args):
        key = (origin, tuple(args))
        r = _TX.get(key)
        if r is None:
            r = object.__new__(cls)
            r.origin = origin
            r.args = tuple(args)
            _TX[key] = r
        return r


class IterObj(Heap):
    __slots__ = ("items", "pos")

    def __init__(self, items, epoch=0):
        self.items = list(items)
        self.pos = 0
        self.epoch = epoch

    def snap(self):
        return self.pos

    def restore(self, s):
        self.pos = s


class CtxMgr(V):
    """A @contextmanager generator call, or a modelled context manager."""
    __slots__ = ("fn", "args", "kwargs", "kind", "data")

    def __init__(self, kind, fn=None, args=(), kwargs=None, data=None):
        self.kind = kind
        self.fn = fn
        self.args = args
        self.kwargs = kwargs or {}
        self.data = data


def freeze(v, depth=0, seen=()):
    """The immutable term describing the current content of a value."""
    if isinstance(v, (K, S)):
        return v
    if depth > 12:
        return mk("deep")
    if id(v) in seen:
        return mk("ref", type(v).__name__, id(v))
    s2 = seen + (id(v),)
    d = depth + 1
    if isinstance(v, TupleV):
        return mk("tuple", *[freeze(x, d, s2) for x in v.items])
    if isinstance(v, ListObj):
        return mk("list", *[freeze(x, d, s2) for x in v.items])
    if isinstance(v, SetObj):
        if len(v.items) == 1 and isinstance(v.items[0], S) and v.items[0].op == "splat":
            return mk("setof", v.items[0].a[0])
        fs = [freeze(x, d, s2) for x in v.items]
        fs.sort(key=lambda t: (0, repr(t.v)) if isinstance(t, K) else (1, str(t.n).zfill(12)))
        return mk("set", *fs)
    if isinstance(v, DictObj):
        ps = [mk("kv", freeze(k, d, s2), freeze(x, d, s2)) for k, x in v.pairs]
        if v.origin is not None:
            ps.append(mk("more", v.origin))
        return mk("dict", *ps)
    if isinstance(v, Inst):
        return mk("obj", cls_name(v.cls), *[mk("fld", k, freeze(x, d, s2)) for k, x in v.attrs.items() if not k.startswith("$")])
    if isinstance(v, ClassObj):
        return mk("class", v.qualname)
    if isinstance(v, ModuleObj):
        return mk("mod", v.name)
    if isinstance(v, Ext):
        return mk("ext", v.name)
    if isinstance(v, FnV):
        return mk("fn", v.qualname, id(v))
    if isinstance(v, BoundV):
        return mk("bound", freeze(v.self_, d, s2), freeze(v.fn, d, s2))
    if isinstance(v, PartialV):
        return mk("partial", freeze(v.fn, d, s2), *[freeze(x, d, s2) for x in v.args])
    if isinstance(v, TypeX):
        return mk("typex", str(v.origin), *[freeze(x, d, s2) for x in v.args])
    if isinstance(v, PyFn):
        return mk("pyfn", v.name)
    if isinstance(v, MethV):
        return mk("methv", v.name, freeze(v.self_, d, s2))
    if isinstance(v, IterObj):
        return mk("iter", *[freeze(x, d, s2) for x in v.items])
    if isinstance(v, CtxMgr):
        return mk("ctx", v.kind)
    return mk("ref", type(v).__name__, id(v))


def cls_name(c):
    if isinstance(c, ClassObj):
        return c.qualname
    if isinstance(c, Ext):
        return c.name
    return str(c)
