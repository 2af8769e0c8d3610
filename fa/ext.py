"""
Models of everything outside of the analysed package: builtins, the parts of
the standard library fora uses, and a default for the rest (an event plus an
unknown result).  Models only describe data flow; nothing real is executed
apart from folding of literal constants.
"""
from __future__ import annotations
import ast
import builtins
import os.path as _osp
import struct as _struct
import textwrap as _textwrap

from .terms import (K, S, NONE, TRUE, FALSE, B, mk, ite, cat, tostr, not_, none_atom, truthy_atom, eq_atom, conj,
                    disj, typeof, TYPES, Ty, T_ANY, T_STR, T_INT, T_BOOL, T_BYTES, show, CALL_TYPES)
from .objects import (ListObj, SetObj, DictObj, TupleV, Env, ModuleObj, ClassObj, Inst, FnV, BoundV, PartialV, PyFn,
                      MethV, SuperV, Ext, TypeX, IterObj, CtxMgr, freeze, cls_name)

MODELS: dict = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def _is_splat(x):
    return isinstance(x, S) and x.op == "splat"


def _has_splat(items):
    return any(_is_splat(x) for x in items)


PURE = {
    "os.path.join", "os.path.dirname", "os.path.basename", "os.path.realpath", "os.path.normpath", "os.path.relpath",
    "os.path.abspath", "os.path.isabs", "os.path.expanduser", "os.path.splitext", "os.path.exists", "os.path.isfile",
    "os.path.isdir", "os.path.islink", "os.path.samefile", "os.path.split", "os.path.commonpath",
    "stat.S_ISDIR", "stat.S_ISREG", "stat.S_ISLNK", "stat.S_ISCHR", "stat.S_ISBLK", "stat.S_ISFIFO", "stat.S_ISSOCK", "stat.S_IMODE", "stat.S_IFMT",
    "struct.pack", "struct.calcsize", "shlex.quote", "shlex.join", "shlex.split", "builtins.ord", "builtins.chr", "builtins.oct", "builtins.hex",
    "builtins.repr", "builtins.abs", "builtins.hash", "builtins.id", "builtins.round", "builtins.float", "builtins.bytes", "builtins.bytearray",
    "hashlib.sha512", "hashlib.sha256", "hashlib.sha1", "hashlib.md5", "re.search", "re.match", "re.sub", "re.fullmatch", "re.compile", "re.escape", "re.split", "re.findall",
    "textwrap.dedent", "textwrap.indent", "os.getcwd", "os.fspath", "base64.b64encode", "base64.b64decode",
    "zlib.compress", "zlib.decompress", "inspect.currentframe", "inspect.getouterframes", "inspect.stack", "inspect.signature", "inspect.getmodule",
    "datetime.datetime.now", "datetime.now", "shutil.get_terminal_size", "traceback.extract_tb", "traceback.format_tb", "traceback.extract_stack",
    "types.TracebackType", "difflib.diff_bytes", "difflib.unified_diff", "difflib.ndiff", "os.path.getsize",
    "uuid.uuid4", "pathlib.Path", "pathlib.PurePosixPath", "posixpath.join", "builtins.divmod", "builtins.format", "builtins.ascii",
    "typing.get_type_hints", "operator.itemgetter", "operator.attrgetter", "itertools.chain", "itertools.count", "builtins.slice", "builtins.memoryview", "os.sep",
    "jinja2.Environment", "jinja2.FileSystemLoader", "jinja2.environment.Environment", "argparse.ArgumentParser", "importlib.util.spec_from_loader", "importlib.machinery.SourceFileLoader",
    "importlib.util.spec_from_file_location", "contextvars.ContextVar", "datetime.timedelta", "datetime.timezone", "decimal.Decimal", "fractions.Fraction", "codecs.decode", "codecs.encode", "unicodedata.normalize", "os.getpid", "time.time", "time.monotonic", "glob.glob", "glob.iglob", "os.listdir", "os.scandir", "os.walk", "fnmatch.fnmatch",
    "tempfile.gettempdir", "platform.system", "sys.getdefaultencoding", "locale.getpreferredencoding", "os.environ.get",
    "io.StringIO", "string.Template", "weakref.ref", "weakref.proxy", "sys._getframe", "os.getenvb",
    "importlib.util.find_spec", "collections.OrderedDict", "collections.Counter", "functools.reduce",
}
CALL_TYPES.update({
    "builtins.oct": T_STR, "builtins.hex": T_STR, "builtins.repr": T_STR, "builtins.ord": T_INT, "builtins.chr": T_STR,
    "textwrap.dedent": T_STR, "textwrap.indent": T_STR, "shlex.quote": T_STR, "shlex.join": T_STR, "builtins.bytes": T_BYTES,
    "re.sub": T_STR, "re.escape": T_STR, "struct.calcsize": T_INT, "builtins.float": Ty("float"), "os.path.expanduser": T_STR,
    "builtins.hash": T_INT, "builtins.id": T_INT, "zlib.compress": T_BYTES, "base64.b64encode": T_BYTES, "os.getpid": T_INT,
    "os.path.splitext": Ty("tuple", False, None, T_STR), "os.path.split": Ty("tuple", False, None, T_STR), "re.search": Ty("opaque", True),
    "re.match": Ty("opaque", True), "re.fullmatch": Ty("opaque", True), "fnmatch.fnmatch": T_BOOL, "glob.glob": Ty("list", False, None, T_STR), "os.listdir": Ty("list", False, None, T_STR),
    "shlex.split": Ty("list", False, None, T_STR), "importlib.util.spec_from_loader": Ty("opaque", True), "importlib.util.spec_from_file_location": Ty("opaque", True),
    "hashlib.sha256": Ty("opaque"), "hashlib.sha1": Ty("opaque"), "hashlib.md5": Ty("opaque"),
})
for _n in ("uuid.uuid4", "pathlib.Path", "datetime.datetime.now", "inspect.currentframe", "types.TracebackType", "jinja2.Environment",
           "importlib.machinery.SourceFileLoader", "argparse.ArgumentParser", "re.compile", "io.StringIO", "sys._getframe"):
    CALL_TYPES.setdefault(_n, Ty("opaque"))

def _relpath(p, start=None):
    if start is None or _osp.isabs(p) != _osp.isabs(start) or ".." in p.split("/") or ".." in start.split("/"):
        raise NotImplementedError
    return _osp.relpath("/x/" + p, "/x/" + start) if not _osp.isabs(p) else _osp.relpath(p, start)


FOLD = {
    "os.path.join": _osp.join, "os.path.dirname": _osp.dirname, "os.path.basename": _osp.basename,
    "os.path.normpath": _osp.normpath, "os.path.isabs": _osp.isabs, "builtins.oct": oct, "builtins.hex": hex,
    "builtins.repr": repr, "builtins.ord": ord, "builtins.chr": chr, "builtins.abs": abs, "struct.calcsize": _struct.calcsize,
    "textwrap.dedent": _textwrap.dedent, "os.path.relpath": _relpath, "os.path.splitext": _osp.splitext, "os.path.split": _osp.split,
}


def fmt_size(t):
    if isinstance(t, K) and isinstance(t.v, str):
        try:
            return _struct.calcsize(t.v)
        except _struct.error:
            return None
    return None


def argdict(args, kwargs):
    d = {str(i): a for i, a in enumerate(args)}
    for k, v in kwargs.items():
        d[k] = v
    return d


def call_term(name, args, kwargs):
    short = name
    ts = [freeze(a) for a in args] + [mk("kw", k, freeze(v)) for k, v in sorted(kwargs.items())]
    return mk("call", short, *ts)


def default_ext(interp, name, args, kwargs, n):
    from .interp import canon_ext
    base = name[9:] if name.startswith("builtins.") else None
    if base is not None:
        o = getattr(builtins, base, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return make_exception(interp, name, args, kwargs)
    if name in EXC_CLASSES:
        return make_exception(interp, name, args, kwargs)
    if name in PURE or name in interp.cfg.ext_pure:
        f = FOLD.get(name)
        if f is not None and args and all(isinstance(a, K) for a in args) and all(isinstance(a, K) for a in kwargs.values()):
            try:
                r = f(*[a.v for a in args], **{k: a.v for k, a in kwargs.items()})
                return TupleV([K(x) for x in r]) if isinstance(r, tuple) else K(r)
            except NotImplementedError:
                return call_term(name, args, kwargs)
            except (TypeError, ValueError) as e:
                interp.raise_(type(e).__name__, K(str(e)), n)
        if name in ("os.path.join",):
            args = [interp.split(a) if isinstance(a, S) else a for a in args]
        return call_term(name, args, kwargs)
    if name.split(".")[0] in COMPUTING and not interp.loading:
        from .interp import Unsupported
        raise Unsupported(f"{name} is not modelled")        # its result is determined by its arguments: treating it as arbitrary would add impossible paths
    r = interp.fresh(name, *args, *[mk("kw", k, freeze(v)) for k, v in sorted(kwargs.items())], ty=CALL_TYPES.get(name))
    interp.emit("ext", name, argdict(args, kwargs), n, res=r)
    interp.maybe_raise(name, n)
    if interp.loading:
        return mk("call", name, *[freeze(a) for a in args])
    return r


COMPUTING = {"builtins", "itertools", "functools", "operator", "collections", "string", "textwrap", "heapq", "bisect", "types", "typing", "abc", "enum", "copy",
             "dataclasses", "contextlib", "keyword", "unicodedata", "shlex", "fnmatch", "posixpath", "ntpath", "pathlib", "math", "re", "ast", "pprint", "array",
             "json", "html", "difflib", "statistics", "numbers", "decimal", "fractions", "weakref", "ipaddress", "urllib"}

EXC_CLASSES = {"subprocess.CalledProcessError", "subprocess.SubprocessError", "subprocess.TimeoutExpired", "struct.error",
               "jinja2.exceptions.UndefinedError", "jinja2.exceptions.TemplateError", "argparse.ArgumentError", "zlib.error", "binascii.Error"}


def make_exception(interp, name, args, kwargs):
    a = {"args": TupleV(args)}
    if name == "subprocess.CalledProcessError":
        for k, i in (("returncode", 0), ("cmd", 1), ("output", 2), ("stderr", 3)):
            a[k] = args[i] if i < len(args) else kwargs.get(k, NONE)
        a["stdout"] = a["output"]
    elif name.startswith("builtins.") and isinstance(getattr(builtins, name[9:], None), type) and issubclass(getattr(builtins, name[9:]), OSError):
        a["errno"] = args[0] if len(args) >= 2 else NONE
        a["strerror"] = args[1] if len(args) >= 2 else NONE
        a["filename"] = args[2] if len(args) >= 3 else NONE
    elif name == "builtins.SystemExit":
        a["code"] = args[0] if args else NONE
    elif name == "builtins.StopIteration":
        a["value"] = args[0] if args else NONE
    return Inst(Ext(name), a, interp.epoch)


# --------------------------------------------------------------------------
# builtins


@model("builtins.len")
def _len(i, a, k, n):
    v = a[0]
    if isinstance(v, S):
        v = i.facts.simp(v)
    if isinstance(v, (ListObj, TupleV, SetObj)):
        if not _has_splat(v.items):
            return K(len(v.items))
        return mk("len", freeze(v))
    if isinstance(v, DictObj):
        if v.origin is None:
            return K(len(v.pairs))
        return mk("len", freeze(v))
    if isinstance(v, K):
        try:
            return K(len(v.v))
        except TypeError as e:
            i.raise_("TypeError", K(str(e)), n)
    if isinstance(v, Inst) and isinstance(v.cls, ClassObj):
        _, f = v.cls.find("__len__")
        if f is not None:
            return i.call(BoundV(v, f), [], {}, n)
    if isinstance(v, S) and v.op in ("list", "tuple", "set") and not _has_splat(v.a):
        return K(len(v.a))
    if isinstance(v, S) and v.op == "call" and v.a[0] == "struct.pack":
        z = fmt_size(v.a[1])
        if z is not None:
            return K(z)
    return mk("len", freeze(v))


@model("builtins.str")
def _str(i, a, k, n):
    if not a:
        return K("")
    if len(a) > 1 or k:
        t = mk("meth", "decode", freeze(a[0]), *[freeze(x) for x in a[1:]])
        TYPES[t] = T_STR
        return t
    return i.to_str(a[0])


@model("builtins.int")
def _int(i, a, k, n):
    if not a:
        return K(0)
    v = a[0]
    if isinstance(v, S):
        v = i.facts.simp(v)
    base = a[1] if len(a) > 1 else k.get("base")
    if isinstance(v, K) and (base is None or isinstance(base, K)):
        try:
            return K(int(v.v) if base is None else int(v.v, base.v))
        except (ValueError, TypeError) as e:
            i.raise_(type(e).__name__, K(str(e)), n)
    if isinstance(v, S) and base is None and typeof(v).kind == "int" and not typeof(v).nullable:
        return v
    if isinstance(v, S) and v.op == "str" and base is None and typeof(v.a[0]).kind == "int":
        return v.a[0]
    i.maybe_raise("builtins.int", n)
    t = mk("call", "int", freeze(v), *([freeze(base)] if base is not None else []))
    return t


@model("builtins.bool")
def _bool(i, a, k, n):
    if not a:
        return FALSE
    if isinstance(a[0], (K, S)):
        return truthy_atom(a[0])
    return B(i.truth(a[0]))


def _mklist(i, v):
    return ListObj(i.iter_items(v), i.epoch)


@model("builtins.list")
def _list(i, a, k, n):
    if not a:
        return ListObj([], i.epoch)
    if isinstance(a[0], S):
        x = i.facts.simp(a[0])
        if isinstance(x, S) and x.op in ("or", "ite", "and"):
            x = i.split(x)
        if isinstance(x, K) and x.v is None:
            i.raise_("TypeError", K("NoneType not iterable"), n)
        return _mklist(i, x)
    return _mklist(i, a[0])


@model("builtins.tuple")
def _tuple(i, a, k, n):
    return TupleV(i.iter_items(a[0]) if a else [])


@model("builtins.set", "builtins.frozenset")
def _set(i, a, k, n):
    s = SetObj([], i.epoch)
    for x in (i.iter_items(a[0]) if a else []):
        i.set_add(s, x)
    return s


@model("builtins.dict", "collections.OrderedDict")
def _dict(i, a, k, n):
    d = DictObj([], i.epoch)
    if a:
        i.dict_update(d, a[0])
    for kk, v in k.items():
        if kk == "**":
            i.dict_update(d, v)
        else:
            i.setitem(d, K(kk), v, n)
    return d


@model("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys")
def _dict_fromkeys(i, a, k, n):
    items = list(i.iter_items(a[0]))
    if any(isinstance(x, S) and x.op == "splat" for x in items):
        from .interp import Unsupported
        raise Unsupported("dict.fromkeys of an unknown collection")
    d = DictObj([], i.epoch)
    for x in items:
        i.setitem(d, x, a[1] if len(a) > 1 else NONE, n)
    return d


@model("collections.defaultdict")
def _ddict(i, a, k, n):
    return Inst(Ext("collections.defaultdict"), {"$d": DictObj([], i.epoch), "$f": a[0] if a else NONE}, i.epoch)


_ORDERED = {"str": 1, "bytes": 2, "list": 3, "tuple": 4, "int": 5, "bool": 5}


def _order_kind(x):
    if isinstance(x, K):
        return {str: 1, bytes: 2, bool: 5, int: 5, float: 5, type(None): 6}.get(type(x.v))
    if isinstance(x, ListObj):
        return 3
    if isinstance(x, TupleV):
        return 4
    if isinstance(x, DictObj):
        return 7
    if isinstance(x, S):
        t = typeof(x)
        return None if t.nullable else _ORDERED.get(t.kind)
    if isinstance(x, (FnV, BoundV)) or isinstance(x, Inst) and isinstance(x.cls, ClassObj) and x.cls.find("__lt__")[1] is None and not x.cls.is_namedtuple and not x.cls.is_dataclass and not any(isinstance(b, Ext) for b in x.cls.mro()):
        return 8
    return None


def _lex_order(i, keys, n):
    """The order of tuples of which enough is known, or None. Raises like the comparison of values of different types."""
    import functools

    class Unknown(Exception):
        pass

    def cmp(a, b):
        for x, y in zip(keys[a].items, keys[b].items):
            if x is y or freeze(x) is freeze(y):
                continue
            kx, ky = _order_kind(x), _order_kind(y)
            if kx is not None and ky is not None and (kx != ky or kx in (6, 7, 8)):
                i.raise_("TypeError", K("'<' not supported"), n)
            if not (isinstance(x, K) and isinstance(y, K)):
                raise Unknown
            if x.v != y.v:
                return -1 if x.v < y.v else 1
        return (len(keys[a].items) > len(keys[b].items)) - (len(keys[a].items) < len(keys[b].items))
    groups = {}
    for k in keys:
        for j in range(len(k.items)):
            pre = tuple(freeze(x) for x in k.items[:j])
            groups.setdefault(pre, set()).add(_order_kind(k.items[j]))
            if not isinstance(k.items[j], K):
                break
    for kinds in groups.values():
        # values of two kinds that can't be compared: some two of them are compared in any order
        if len(kinds - {None}) > 1:
            i.raise_("TypeError", K("'<' not supported"), n)
    try:
        return sorted(range(len(keys)), key=functools.cmp_to_key(cmp))
    except Unknown:
        return None


@model("builtins.sorted")
def _sorted(i, a, k, n):
    items = i.try_items(a[0])
    key = k.get("key")
    rev = k.get("reverse", FALSE)
    if items is not None and not _has_splat(items):
        if len(items) <= 1:
            return ListObj(items, i.epoch)
        if all(isinstance(x, K) for x in items) and key is None and isinstance(rev, K):
            try:
                return ListObj([K(x) for x in sorted([y.v for y in items], reverse=bool(rev.v))], i.epoch)
            except TypeError:
                i.raise_("TypeError", K("sort"), n)
        if key is not None:
            keys = [i.call(key, [x], {}, n) for x in items]
            if all(isinstance(x, K) for x in keys):
                order = sorted(range(len(items)), key=lambda j: keys[j].v, reverse=bool(isinstance(rev, K) and rev.v))
                return ListObj([items[j] for j in order], i.epoch)
            if all(isinstance(x, TupleV) for x in keys):
                order = _lex_order(i, keys, n)
                if order is not None and isinstance(rev, K):
                    if rev.v:
                        order = order[::-1]
                    return ListObj([items[j] for j in order], i.epoch)
            if i.cfg.__dict__.get("sort_identity"):
                i.emit("sorted", "key", {"keys": TupleV(keys)}, n)
                return ListObj(items, i.epoch)
        # the order of unknown elements: represented as given (callers treat sorted() results as sets)
        return ListObj(items, i.epoch)
    t = freeze(a[0])
    while isinstance(t, S) and (t.op in ("setof", "listof", "sorted") or (t.op in ("list", "set", "tuple") and len(t.a) == 1 and isinstance(t.a[0], S) and t.a[0].op == "splat")):
        t = t.a[0].a[0] if t.op in ("list", "set", "tuple") else t.a[0]
    return mk("sorted", t)


@model("builtins.reversed")
def _reversed(i, a, k, n):
    items = i.iter_items(a[0])
    if not _has_splat(items):
        return ListObj(items[::-1], i.epoch)
    return mk("reversed", freeze(a[0]))


@model("builtins.enumerate")
def _enumerate(i, a, k, n):
    st = k.get("start", a[1] if len(a) > 1 else K(0))
    items = i.try_items(a[0])
    if items is not None and not _has_splat(items) and isinstance(st, K):
        return ListObj([TupleV([K(j + st.v), x]) for j, x in enumerate(items)], i.epoch)
    t = mk("enumerate", freeze(a[0]))
    return t


@model("builtins.zip")
def _zip(i, a, k, n):
    its = [i.try_items(x) for x in a]
    if all(x is not None and not _has_splat(x) for x in its):
        return ListObj([TupleV(list(t)) for t in zip(*its)], i.epoch)
    return mk("zip", *[freeze(x) for x in a])


@model("builtins.range")
def _range(i, a, k, n):
    a = [i.facts.simp(x) if isinstance(x, S) else x for x in a]
    if all(isinstance(x, K) for x in a):
        r = range(*[x.v for x in a])
        if len(r) <= 64:
            return ListObj([K(x) for x in r], i.epoch)
    return mk("range", *[freeze(x) for x in a])


@model("builtins.map")
def _map(i, a, k, n):
    its = [i.try_items(x) for x in a[1:]]
    if all(x is not None and not _has_splat(x) for x in its):
        r = ListObj([i.call(a[0], list(t), {}, n) for t in zip(*its)], i.epoch)
        r.isiter = True
        return r
    return mk("map", freeze(a[0]), *[freeze(x) for x in a[1:]])


@model("builtins.filter")
def _filter(i, a, k, n):
    items = i.try_items(a[1])
    if items is not None and not _has_splat(items):
        out = []
        for x in items:
            if i.truth(x if isinstance(a[0], K) else i.call(a[0], [x], {}, n)):
                out.append(x)
        r = ListObj(out, i.epoch)
        r.isiter = True
        return r
    return mk("filter", freeze(a[0]), freeze(a[1]))


@model("builtins.any", "builtins.all")
def _anyall(i, a, k, n):
    pass


def _any_impl(isany):
    def f(i, a, k, n):
        items = i.try_items(a[0])
        if items is None:
            return mk("boolcall", "any" if isany else "all", freeze(a[0]))
        out = []
        for x in items:
            if _is_splat(x):
                t = x.a[0]
                if isinstance(t, S) and t.op == "comp":
                    out.append(mk("boolcall", "any" if isany else "all", t))
                else:
                    out.append(mk("boolcall", "any" if isany else "all", t))
            else:
                out.append(truthy_atom(x) if isinstance(x, (K, S)) else B(i.truth(x)))
        return disj(out) if isany else conj(out)
    return f


MODELS["builtins.any"] = _any_impl(True)
MODELS["builtins.all"] = _any_impl(False)


def _minmax(name):
    def f(i, a, k, n):
        items = i.try_items(a[0]) if len(a) == 1 else list(a)
        if items is not None and items and all(isinstance(x, K) for x in items) and "key" not in k:
            return K((min if name == "min" else max)([x.v for x in items]))
        if items is not None and not items:
            if "default" in k:
                return k["default"]
            i.raise_("ValueError", K(name + "() of an empty sequence"), n)
        t = mk("call", name, *[freeze(x) for x in a])
        if items and all(isinstance(x, (K, S)) and typeof(x).kind == "int" for x in items):
            TYPES[t] = T_INT
        return t
    return f


MODELS["builtins.min"] = _minmax("min")
MODELS["builtins.max"] = _minmax("max")


@model("builtins.sum")
def _sum(i, a, k, n):
    items = i.try_items(a[0])
    if items is not None and not _has_splat(items):
        acc = a[1] if len(a) > 1 else k.get("start", K(0))
        for x in items:
            acc = i.binop(ast.Add(), acc, x, n)
        return acc
    t = mk("call", "sum", *[freeze(x) for x in a])
    return t


@model("builtins.isinstance")
def _isinstance(i, a, k, n):
    return i.is_instance(a[0], a[1])


@model("builtins.issubclass")
def _issubclass(i, a, k, n):
    cs = a[1].items if isinstance(a[1], TupleV) else [a[1]]
    if isinstance(a[0], (ClassObj, Ext)):
        names = i.class_names(a[0])
        from .interp import canon_ext
        return B(any(canon_ext(cls_name(c)) in names for c in cs if isinstance(c, (ClassObj, Ext))))
    return mk("boolcall", "issubclass", freeze(a[0]), freeze(a[1]))


_MISSING = object()


def _hasattr(i, o, name, n):
    """True / False / boolean term."""
    from .interp import AbsRaise
    if isinstance(o, S):
        o = i.facts.simp(o)
        if isinstance(o, S) and o.op in ("ite", "or"):
            o = i.split(o)
    if isinstance(o, Inst) and i.cfg.dunder and not i.loading and isinstance(o.cls, ClassObj) and isinstance(o.cls.find("__getattribute__")[1], FnV):
        try:
            i.getattr_(o, name, n)
            return TRUE
        except AbsRaise as e:
            if "builtins.AttributeError" in i.class_names(e.exc.cls):
                return FALSE
            raise
    if isinstance(o, Inst):
        if name in o.attrs:
            return TRUE
        if isinstance(o.cls, ClassObj):
            _, f = o.cls.find(name)
            if f is not None:
                return TRUE
            _, g = o.cls.find("__getattr__")
            if g is not None:
                try:
                    i.call(BoundV(o, g), [K(name)], {}, n)
                    return TRUE
                except AbsRaise as e:
                    if "builtins.AttributeError" in i.class_names(e.exc.cls):
                        return FALSE
                    raise
        if o.attrs.get("$ns") is not None and o.attrs.get("$open") is not None:
            return mk("hasattr", o.attrs["$open"], name)
        if not isinstance(o.cls, ClassObj) and o.attrs.get("$ns") is None and not "builtins.BaseException" in i.class_names(o.cls):
            return mk("hasattr", freeze(o), name)
        if name in ("__dict__", "__class__", "__doc__"):
            return TRUE
        return FALSE
    if isinstance(o, ModuleObj):
        return B(name in o.vars or (o.name + "." + name) in i.prog.files)
    if isinstance(o, ClassObj):
        _, f = o.find(name)
        return B(f is not None or name in ("__name__", "__annotations__", "__dict__", "__module__", "__doc__"))
    if isinstance(o, FnV):
        return B(name in o.attrs or name in ("__name__", "__qualname__", "__call__", "__doc__", "__module__"))
    if isinstance(o, (BoundV,)):
        return B(name in ("__name__", "__self__", "__call__", "__func__"))
    if isinstance(o, K):
        return B(hasattr(o.v, name))
    if isinstance(o, S):
        if (o, name) in i.symattrs:
            return TRUE
        if i.cfg.attr_hook is not None:
            r = i.cfg.attr_hook(i, o, "?" + name)
            if r is not None:
                return r
        ty = typeof(o)
        if ty.kind == "inst":
            c = i.classes.get(ty.cls)
            if c is not None:
                _, f = c.find(name)
                if f is not None or i.is_field(c, name):
                    return TRUE
        return mk("hasattr", o, name)
    if isinstance(o, Ext):
        return TRUE
    return mk("hasattr", freeze(o), name)


@model("builtins.hasattr")
def _m_hasattr(i, a, k, n):
    if not isinstance(a[1], K):
        return mk("hasattr", freeze(a[0]), freeze(a[1]))
    return _hasattr(i, a[0], a[1].v, n)


@model("builtins.getattr")
def _getattr(i, a, k, n):
    from .interp import AbsRaise
    o, nm = a[0], a[1]
    if not isinstance(nm, K):
        o2 = o
        if isinstance(o2, Inst) or isinstance(o2, ModuleObj):
            nm2 = i.facts.simp(nm)
            if isinstance(nm2, K):
                return _getattr(i, [o, nm2] + a[2:], k, n)
        fo = freeze(o) if not isinstance(o, (ModuleObj,)) else mk("mod", o.name)
        key = (fo, ("dyn", freeze(nm)))
        if key in i.symattrs:
            return i.symattrs[key]
        if len(a) > 2:
            if not i.decide(mk("hasattr", fo, freeze(nm))):
                return a[2]
        return mk("getattr", fo, freeze(nm))
    if len(a) > 2:
        h = _hasattr(i, o, nm.v, n)
        if not i.decide_bool(h):
            return a[2]
    return i.getattr_(o, nm.v, n)


@model("builtins.setattr")
def _setattr(i, a, k, n):
    if isinstance(a[1], K):
        i.setattr_(a[0], a[1].v, a[2], n)
    else:
        fo = freeze(a[0]) if not isinstance(a[0], ModuleObj) else mk("mod", a[0].name)
        i.symattrs[(fo, ("dyn", freeze(a[1])))] = a[2]
        i.emit("setattr", "?dyn", {"base": a[0], "name": a[1], "value": a[2]}, n, raw=a[0])
    return NONE


@model("builtins.delattr")
def _delattr(i, a, k, n):
    if isinstance(a[0], Inst) and isinstance(a[1], K):
        i.touch(a[0])
        a[0].attrs.pop(a[1].v, None)
    i.emit("delattr", "?dyn", {"base": a[0], "name": a[1]}, n)
    return NONE


@model("builtins.callable")
def _callable(i, a, k, n):
    v = a[0]
    if isinstance(v, (FnV, BoundV, PartialV, PyFn, ClassObj)):
        return TRUE
    if isinstance(v, (K, ListObj, DictObj, TupleV, SetObj, ModuleObj)):
        return FALSE
    if isinstance(v, Inst):
        return B(isinstance(v.cls, ClassObj) and v.cls.find("__call__")[1] is not None)
    return mk("boolcall", "callable", freeze(v))


@model("builtins.print")
def _print(i, a, k, n):
    f = k.get("file")
    i.emit("print", "print", argdict(a, k), n)
    return NONE


@model("builtins.repr", "builtins.ascii")
def _repr(i, a, k, n):
    if isinstance(a[0], K):
        return K(repr(a[0].v))
    t = mk("call", "repr", freeze(a[0]))
    return t


@model("builtins.type")
def _type(i, a, k, n):
    v = a[0]
    if len(a) > 1:
        return mk("call", "type", *[freeze(x) for x in a])
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, K):
        return Ext("builtins." + type(v.v).__name__)
    kinds = {ListObj: "list", DictObj: "dict", SetObj: "set", TupleV: "tuple"}
    if type(v) in kinds:
        return Ext("builtins." + kinds[type(v)])
    if isinstance(v, S):
        v = i.facts.simp(v)
        ty = typeof(v)
        if ty.kind == "inst" and ty.cls in i.classes and not ty.nullable:
            return i.classes[ty.cls]
        if ty.kind in ("str", "int", "bytes", "bool", "list", "dict") and not ty.nullable:
            return Ext("builtins." + ty.kind)
    return mk("call", "type", freeze(v))


@model("builtins.vars")
def _vars(i, a, k, n):
    v = a[0]
    if isinstance(v, Inst) and i.cfg.dunder:
        return i.getattr_(v, "__dict__", n)
    if isinstance(v, Inst):
        return i.inst_dict(v)
    if isinstance(v, ClassObj):
        return DictObj([(K(kk), x) for kk, x in v.vars.items()], i.epoch)
    if isinstance(v, ModuleObj):
        return DictObj([(K(kk), x) for kk, x in v.vars.items()], i.epoch)
    d = DictObj([], i.epoch, mk("attr", freeze(v), "__dict__"))
    return d


@model("builtins.dir")
def _dir(i, a, k, n):
    if a and isinstance(a[0], Inst):
        return ListObj([K(x) for x in a[0].attrs if not x.startswith("$")], i.epoch)
    return mk("call", "dir", *[freeze(x) for x in a])


def _hash_model(name):
    """hashlib objects: the digest is a term over the concatenation of everything fed into it."""
    def h(i, a, k, n):
        data = [a[0]] if a else [k["string"]] if "string" in k else []
        return _hash_obj(i, name, data)
    return h


def _hash_obj(i, name, data):
    o = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "name": K(name.split(".")[-1])}, i.epoch)
    state = mk("hashstate", name, *[freeze(d) for d in data])
    o.attrs["$state"] = state

    def update(ii, a, k, n):
        st = o.attrs["$state"]
        ii.touch(o)
        o.attrs["$state"] = mk("hashstate", name, *st.a[1:], freeze(a[0]))
        return NONE

    def digest(meth):
        def f(ii, a, k, n):
            parts = o.attrs["$state"].a[1:]
            x = K(b"") if not parts else parts[0] if len(parts) == 1 else mk("concat", *parts)
            t = mk("meth", meth, call_term(name, [x], {}))
            TYPES.setdefault(t, T_BYTES if meth == "digest" else T_STR)
            return t
        return f
    o.attrs["update"] = PyFn("hash.update", update)
    o.attrs["digest"] = PyFn("hash.digest", digest("digest"))
    o.attrs["hexdigest"] = PyFn("hash.hexdigest", digest("hexdigest"))
    o.attrs["copy"] = PyFn("hash.copy", lambda ii, a, k, n: _hash_obj(ii, name, list(o.attrs["$state"].a[1:])))
    return o


for _n in ("hashlib.sha512", "hashlib.sha256", "hashlib.sha1", "hashlib.md5", "hashlib.sha384", "hashlib.sha3_512", "hashlib.blake2b"):
    model(_n)(_hash_model(_n))


@model("hashlib.new")
def _hash_new(i, a, k, n):
    nm = a[0] if a else k.get("name")
    if isinstance(nm, K):
        return _hash_obj(i, "hashlib." + nm.v.lower().replace("-", ""), list(a[1:2]) or ([k["data"]] if "data" in k else []))
    return i.fresh("hashlib.new", *a)


@model("hashlib.file_digest")
def _file_digest(i, a, k, n):
    d = a[1] if len(a) > 1 else k.get("digest")
    o = i.call(d, [], {}, n) if not isinstance(d, K) else i.call_ext("hashlib.new", [d], {}, n)
    i.call(i.getattr_(o, "update", n), [i.call(i.getattr_(a[0], "read", n), [], {}, n)], {}, n)
    return o


@model("re.compile")
def _re_compile(i, a, k, n):
    """A pattern's methods are the functions of the module."""
    pat = a[0] if a else k.get("pattern", NONE)
    if isinstance(pat, Inst) and "$pattern" in pat.attrs:
        return pat
    fl = a[1] if len(a) > 1 else k.get("flags")
    o = Inst(Ext("types.SimpleNamespace"), {"$ns": TRUE, "$pattern": TRUE, "pattern": pat}, i.epoch)
    for m in ("search", "match", "fullmatch", "sub", "subn", "split", "findall", "finditer"):
        def f(ii, aa, kk, nn, m=m):
            return ii.call_ext("re." + m, [pat, *aa], {**kk, **({} if fl is None else {"flags": fl})}, nn)
        o.attrs[m] = PyFn("re." + m, f)
    return o


@model("builtins.iter")
def _iter(i, a, k, n):
    if len(a) > 1:
        from .interp import Unsupported
        out = []
        while len(out) < 8:
            v = i.call(a[0], [], {}, n)
            if i.truth(i.compare(ast.Eq(), v, a[1], n)):
                return IterObj(out, i.epoch)
            out.append(v)
        raise Unsupported("iter with a sentinel that isn't reached")
    items = i.try_items(a[0])
    if items is not None:
        return IterObj(items, i.epoch)
    return a[0]


@model("builtins.next")
def _next(i, a, k, n):
    v = a[0]
    if isinstance(v, IterObj):
        if v.pos < len(v.items) and not _is_splat(v.items[v.pos]):
            i.touch(v)
            r = v.items[v.pos]
            v.pos += 1
            return r
        if v.pos < len(v.items):
            x = v.items[v.pos].a[0]
            if i.decide(truthy_atom(x)):
                return i.elem_of(x)
            i.touch(v)
            v.pos += 1
            return _next(i, a, k, n)
        if len(a) > 1:
            return a[1]
        i.raise_("StopIteration", None, n)
    if isinstance(v, ListObj):
        items = v.items
        if items and not _is_splat(items[0]):
            i.touch(v)
            return v.items.pop(0)
        if items:
            x = items[0].a[0]
            if i.decide_bool(truthy_atom(x)):
                return i.elem_of(x)
        if len(a) > 1:
            return a[1]
        i.raise_("StopIteration", None, n)
    f = freeze(v)
    if len(a) > 1:
        if i.decide_bool(truthy_atom(f)):
            return i.elem_of(f)
        return a[1]
    return i.elem_of(f)


@model("builtins.property", "functools.cached_property")
def _property(i, a, k, n):
    f = a[0]
    if isinstance(f, FnV):
        f.kind = "property"
    return f


@model("builtins.classmethod")
def _classmethod(i, a, k, n):
    if isinstance(a[0], FnV):
        a[0].kind = "class"
    return a[0]


@model("builtins.staticmethod")
def _staticmethod(i, a, k, n):
    if isinstance(a[0], FnV):
        a[0].kind = "static"
    return a[0]


@model("abc.abstractmethod", "typing.no_type_check", "typing.overload", "typing.final", "typing.runtime_checkable", "functools.lru_cache", "functools.cache")
def _ident(i, a, k, n):
    if not a or not isinstance(a[0], (FnV, ClassObj)):
        return PyFn("ident", _ident)
    return a[0]


@model("builtins.object")
def _object(i, a, k, n):
    return Inst(Ext("builtins.object"), {}, i.epoch)


@model("builtins.object.__getattribute__")
def _ogetattribute(i, a, k, n):
    o, nm = a
    if isinstance(nm, K) and isinstance(o, Inst):
        if nm.v in o.attrs:
            return o.attrs[nm.v]
        if nm.v == "__dict__":
            return i.inst_dict(o)
        if nm.v in ("__annotations__", "__class__"):
            return i.inst_attr(o, nm.v, n)
        if isinstance(o.cls, ClassObj):
            _, f = o.cls.find(nm.v)
            if f is not None:
                return i.inst_attr(o, nm.v, n)
        i.raise_("AttributeError", nm, n)
    if isinstance(o, Inst):
        fo = mk("ref", "Inst", o.ident)
        if not i.decide(mk("hasattr", fo, freeze(nm))):
            i.raise_("AttributeError", NONE, n)
        return mk("getattr", fo, freeze(nm))
    if isinstance(nm, K):
        return i.getattr_(o, nm.v, n)
    return mk("getattr", freeze(o), freeze(nm))


@model("builtins.object.__setattr__")
def _osetattr(i, a, k, n):
    if isinstance(a[0], Inst) and isinstance(a[1], K):
        i.setattr_(a[0], a[1].v, a[2], n, raw=True)
        return NONE
    return _setattr(i, a, k, n)


@model("builtins.open")
def _open(i, a, k, n):
    mode = a[1] if len(a) > 1 else k.get("mode", K("r"))
    bound = {"file": a[0], "mode": mode}
    for kk, v in k.items():
        if kk not in bound:
            bound[kk] = v
    r = i.fresh("open", a[0], mode, ty=Ty("opaque"))
    i.emit("ext", "builtins.open", bound, n, res=r)
    i.maybe_raise("builtins.open", n)
    return r


@model("builtins.input")
def _input(i, a, k, n):
    r = i.fresh("input", *a, ty=T_STR)
    i.emit("ext", "builtins.input", argdict(a, k), n, res=r)
    i.maybe_raise("builtins.input", n)
    return r


@model("sys.exit", "builtins.exit", "builtins.quit")
def _exit(i, a, k, n):
    from .interp import AbsRaise
    e = make_exception(i, "builtins.SystemExit", a, k)
    i.emit("ext", "sys.exit", argdict(a, k), n)
    raise AbsRaise(e, n, i.loc(n))


@model("os._exit")
def _oexit(i, a, k, n):
    from .interp import AbsRaise
    e = make_exception(i, "builtins.SystemExit", a, k)
    i.emit("ext", "os._exit", argdict(a, k), n)
    raise AbsRaise(e, n, i.loc(n))


# --------------------------------------------------------------------------
# typing, dataclasses, functools, contextlib, copy, types


@model("typing.cast")
def _cast(i, a, k, n):
    v = a[1]
    if isinstance(v, S) and v not in TYPES and v.op in ("res", "attr", "item", "elem", "kwitem") and isinstance(a[0], ClassObj):
        if i.facts.isnone(v) is not True:
            pass
    return v


@model("typing.TypeVar", "typing.ParamSpec")
def _typevar(i, a, k, n):
    return Ext("typing.TypeVar." + (a[0].v if isinstance(a[0], K) else "?"))


@model("typing.NewType")
def _newtype(i, a, k, n):
    base = a[1].name.split(".")[-1] if isinstance(a[1], Ext) else "any"
    nm = a[0].v if isinstance(a[0], K) else "?"
    return _newtype_obj(nm, base)


_NT: dict = {}


def _newtype_obj(nm, base):
    r = _NT.get((nm, base))
    if r is None:
        r = PyFn("NewType:" + base + ":" + nm, lambda ii, aa, kk, nn: aa[0])
        _NT[(nm, base)] = r
    return r


@model("typing.get_origin")
def _get_origin(i, a, k, n):
    v = a[0]
    if isinstance(v, TypeX):
        return Ext("typing.Union") if v.origin == "Union" else Ext("builtins." + str(v.origin))
    if isinstance(v, (Ext, ClassObj, PyFn)):
        return NONE
    return mk("call", "get_origin", freeze(v))


@model("typing.get_args")
def _get_args(i, a, k, n):
    v = a[0]
    if isinstance(v, TypeX):
        return TupleV(v.args)
    if isinstance(v, (Ext, ClassObj, PyFn)):
        return TupleV([])
    return mk("call", "get_args", freeze(v))


@model("typing.get_type_hints")
def _hints(i, a, k, n):
    if isinstance(a[0], ClassObj):
        return a[0].annotations
    return mk("call", "get_type_hints", freeze(a[0]))


@model("typing.NamedTuple", "collections.namedtuple")
def _namedtuple(i, a, k, n):
    from .interp import Unsupported
    nm = a[0].v
    c = ClassObj(nm, i.frames[-1].module.name + "." + nm, [], i.frames[-1].module, None, i.epoch)
    c.is_namedtuple = True
    fields = []
    src = a[1] if len(a) > 1 else NONE
    if isinstance(src, K) and isinstance(src.v, str):
        fields = src.v.replace(",", " ").split()
    else:
        for x in i.iter_items(src):
            fx = x.items[0] if isinstance(x, TupleV) else x
            fields.append(fx.v)
    for f in fields:
        c.ann_nodes[f] = ast.Name("Any", ast.Load())
        c.annotations.pairs.append((K(f), Ext("typing.Any")))
    c.vars["_fields"] = TupleV([K(f) for f in fields])
    i.classes[c.qualname] = c
    return c


@model("dataclasses.dataclass")
def _dataclass(i, a, k, n):
    def mark(ii, aa, kk, nn):
        aa[0].is_dataclass = True
        return aa[0]
    if a:
        return mark(i, a, k, n)
    return PyFn("dataclass()", mark)


@model("dataclasses.field")
def _field(i, a, k, n):
    return Inst(Ext("dataclasses.field"), dict(k), i.epoch)


@model("dataclasses.fields")
def _fields(i, a, k, n):
    c = a[0].cls if isinstance(a[0], Inst) else a[0] if isinstance(a[0], ClassObj) else i.classes.get(typeof(a[0]).cls) if isinstance(a[0], S) else None
    if isinstance(c, ClassObj):
        anns = {kk.v: v for kk, v in c.annotations.pairs}
        return TupleV([Inst(Ext("dataclasses.Field"), {"name": K(nm), "type": anns.get(nm, NONE), "$ns": TRUE}, i.epoch) for nm, _, _ in i.dc_fields(c)])
    return mk("call", "fields", freeze(a[0]))


@model("dataclasses.replace")
def _replace(i, a, k, n):
    o = a[0]
    if isinstance(o, Inst):
        new = Inst(o.cls, {x: v for x, v in o.attrs.items()}, i.epoch)
        for kk, v in k.items():
            if kk == "**":
                from .interp import Unsupported
                raise Unsupported("replace(**unknown)")
            new.attrs[kk] = v
        return new
    if isinstance(o, S):
        c = i.classes.get(typeof(o).cls) if typeof(o).kind == "inst" else None
        if c is not None and "**" not in k:
            new = Inst(c, {}, i.epoch)
            for nm, _, _ in i.dc_fields(c):
                new.attrs[nm] = k[nm] if nm in k else i.getattr_(o, nm, n)
            return new
    return mk("call", "replace", freeze(o), *[mk("kw", x, freeze(v)) for x, v in sorted(k.items())])


@model("dataclasses.asdict")
def _asdict(i, a, k, n):
    o = a[0]
    if isinstance(o, Inst):
        return DictObj([(K(x), v) for x, v in o.attrs.items() if not x.startswith("$")], i.epoch)
    if isinstance(o, S):
        c = i.classes.get(typeof(o).cls) if typeof(o).kind == "inst" else None
        if c is not None:
            return DictObj([(K(nm), i.getattr_(o, nm, n)) for nm, _, _ in i.dc_fields(c)], i.epoch)
    return mk("call", "asdict", freeze(o))


@model("dataclasses.astuple")
def _astuple(i, a, k, n):
    o = a[0]
    if isinstance(o, Inst):
        return TupleV([v for x, v in o.attrs.items() if not x.startswith("$")])
    return mk("call", "astuple", freeze(o))


@model("functools.wraps")
def _wraps(i, a, k, n):
    orig = a[0]

    def deco(ii, aa, kk, nn):
        f = aa[0]
        if isinstance(f, FnV):
            f.wrapped = orig
            if isinstance(orig, FnV):
                f.name = orig.name
                for x, v in orig.attrs.items():
                    f.attrs.setdefault(x, v)
        return f
    return PyFn("wraps()", deco)


@model("functools.partial")
def _partial(i, a, k, n):
    return PartialV(a[0], list(a[1:]), dict(k))


@model("functools.reduce")
def _reduce(i, a, k, n):
    items = i.try_items(a[1])
    if items is None or _has_splat(items):
        return mk("call", "reduce", *[freeze(x) for x in a])
    items = list(items)
    if len(a) > 2:
        acc = a[2]
    elif items:
        acc = items.pop(0)
    else:
        i.raise_("TypeError", K("reduce of empty"), n)
    for x in items:
        acc = i.call(a[0], [acc, x], {}, n)
    return acc


@model("contextlib.contextmanager")
def _contextmanager(i, a, k, n):
    a[0].ctxmgr = True
    return a[0]


@model("builtins.__import__", "importlib.import_module")
def _import(i, a, k, n):
    nm = a[0] if a else k.get("name")
    if len(a) + len(k) == 1 and isinstance(nm, K) and isinstance(nm.v, str) and not nm.v.startswith("."):
        m = i.module(nm.v)
        return m if m is not None else Ext(nm.v)
    return default_ext(i, "importlib.import_module", a, k, n)


@model("contextlib.suppress")
def _suppress(i, a, k, n):
    return CtxMgr("suppress", data=list(a))


@model("contextlib.nullcontext")
def _nullcontext(i, a, k, n):
    return CtxMgr("null", data=a[0] if a else NONE)


@model("contextlib.closing")
def _closing(i, a, k, n):
    return CtxMgr("closing", data=a[0])


@model("contextlib.ExitStack")
def _exitstack(i, a, k, n):
    return Inst(Ext("contextlib.ExitStack"), {"$cbs": ListObj([], i.epoch)}, i.epoch)


@model("contextlib.redirect_stdout")
def _redir(i, a, k, n):
    return CtxMgr("null", data=a[0] if a else NONE)


@model("copy.deepcopy")
def _deepcopy(i, a, k, n, seen=None):
    seen = {} if seen is None else seen
    v = a[0]
    if id(v) in seen:
        return seen[id(v)]
    d = lambda x: _deepcopy(i, [x], {}, n, seen)
    if isinstance(v, ListObj):
        r = seen[id(v)] = ListObj([], i.epoch)
        r.items = [d(x) for x in v.items]
        return r
    if isinstance(v, DictObj):
        r = seen[id(v)] = DictObj([], i.epoch, v.origin)
        r.pairs = [(d(x), d(y)) for x, y in v.pairs]
        return r
    if isinstance(v, TupleV):
        return TupleV([d(x) for x in v.items])
    if isinstance(v, Inst) and isinstance(v.cls, ClassObj):
        r = seen[id(v)] = Inst(v.cls, {}, i.epoch)
        r.attrs = {x: d(y) for x, y in v.attrs.items()}
        return r
    return _copy(i, a, k, n)


@model("copy.copy")
def _copy(i, a, k, n):
    v = a[0]
    if isinstance(v, ListObj):
        return ListObj(v.items, i.epoch)
    if isinstance(v, DictObj):
        return DictObj(v.pairs, i.epoch, v.origin)
    if isinstance(v, SetObj):
        return SetObj(v.items, i.epoch)
    if isinstance(v, Inst):
        return Inst(v.cls, v.attrs, i.epoch)
    if isinstance(v, S) and typeof(v).kind == "inst":
        return v
    return v


@model("types.SimpleNamespace")
def _ns(i, a, k, n):
    d = {"$ns": TRUE}
    for kk, v in k.items():
        if kk == "**":
            d["$open"] = v
        else:
            d[kk] = v
    return Inst(Ext("types.SimpleNamespace"), d, i.epoch)


@model("types.ModuleType")
def _modtype(i, a, k, n):
    r = i.fresh("types.ModuleType", *a, ty=Ty("opaque"))
    i.emit("ext", "types.ModuleType", argdict(a, k), n, res=r)
    return r


def canon_fmt(t):
    if isinstance(t, K) and isinstance(t.v, (str, bytes)):
        f = t.v.decode() if isinstance(t.v, bytes) else t.v
        return ("@" + f if f[:1] not in tuple("@=<>!") else f).replace("!", ">").replace(" ", "")
    return None


@model("struct.unpack")
def _unpack(i, a, k, n):
    fmt, data = a
    if isinstance(data, S):
        data = i.facts.simp(data)
    if isinstance(data, S) and data.op == "call" and data.a[0] == "struct.pack" and canon_fmt(data.a[1]) == canon_fmt(freeze(fmt)) is not None:
        return TupleV(list(data.a[2:]))
    if isinstance(data, K) and isinstance(fmt, K):
        try:
            return TupleV([K(x) for x in _struct.unpack(fmt.v, data.v)])
        except _struct.error as e:
            i.raise_("struct.error", K(str(e)), n)
    i.maybe_raise("struct.unpack", n)
    t = mk("call", "struct.unpack", freeze(fmt), freeze(data))
    TYPES[t] = Ty("tuple")
    cnt = 1
    if isinstance(fmt, K):
        try:
            cnt = len(_struct.unpack(fmt.v, b"\0" * _struct.calcsize(fmt.v)))
        except _struct.error:
            pass
    out = []
    for j in range(cnt):
        e = mk("item", t, K(j))
        TYPES.setdefault(e, T_ANY)
        out.append(e)
    return TupleV(out)


@model("struct.unpack_from")
def _unpack_from(i, a, k, n):
    return _unpack(i, a[:2], k, n)


@model("struct.pack")
def _pack(i, a, k, n):
    i.maybe_raise("struct.pack", n)
    t = mk("call", "struct.pack", *[freeze(x) for x in a])
    return t


# Byte sequences: "bcat" terms and modelled streams


def bsegs(t):
    """The segments of a bytes term."""
    t = freeze(t)
    if isinstance(t, K):
        return [t] if t.v else []
    if isinstance(t, S) and t.op == "bcat":
        return list(t.a)
    return [t]


def bcat(*parts):
    out = []
    for p in parts:
        for q in bsegs(p):
            if isinstance(q, K) and out and isinstance(out[-1], K):
                out[-1] = K(out[-1].v + q.v)
            else:
                out.append(q)
    if not out:
        return K(b"")
    if len(out) == 1:
        return out[0]
    r = mk("bcat", *out)
    TYPES[r] = T_BYTES
    return r


def blen(t):
    """Length of one segment: int or None (symbolic)."""
    if isinstance(t, K):
        return len(t.v)
    if isinstance(t, S) and t.op == "call" and t.a[0] == "struct.pack":
        return fmt_size(t.a[1])
    return None


def btake(segs, n):
    """Split off the first n bytes (n: K or len term) -> (bytes term, rest) or None if that is not at a segment boundary."""
    if isinstance(n, K) and isinstance(n.v, int):
        left, out, segs = n.v, [], list(segs)
        while left > 0:
            if not segs:
                return None
            z = blen(segs[0])
            if z is None:
                return None
            if z <= left:
                out.append(segs.pop(0))
                left -= z
            elif isinstance(segs[0], K):
                out.append(K(segs[0].v[:left]))
                segs[0] = K(segs[0].v[left:])
                left = 0
            else:
                return None
        return bcat(*out), segs
    if isinstance(n, S) and n.op == "len":
        want = bsegs(n.a[0])
        if len(segs) >= len(want) and all(a is b for a, b in zip(want, segs)):
            return bcat(*want), list(segs[len(want):])
    return None


def new_stream(i, segs=(), name="io.BytesIO"):
    return Inst(Ext("io.BytesIO"), {"$segs": ListObj(segs, i.epoch), "$name": K(name)}, i.epoch)


@model("io.BytesIO")
def _bytesio(i, a, k, n):
    return new_stream(i, bsegs(a[0]) if a else [])


def stream_method(i, o, name, args, kwargs, n):
    from .interp import Unsupported
    q = o.attrs["$segs"]
    if name == "write":
        ss = bsegs(args[0])
        if o.attrs["$name"].v != "io.BytesIO":
            i.emit("stream", o.attrs["$name"].v + ".write", {"data": args[0]}, n)
        i.touch(q)
        q.items.extend(ss)
        return _len(i, [args[0]], {}, n)
    if name in ("flush", "close", "__enter__", "__exit__"):
        i.emit("stream", o.attrs["$name"].v + "." + name, {}, n)
        if name == "close":
            i.maybe_raise("stream:" + o.attrs["$name"].v + ".close", n)
        return NONE
    if name in ("getvalue", "getbuffer"):
        return bcat(*q.items)
    if name in ("read", "recv", "read1"):
        if not args or args[0] is NONE:
            r = bcat(*q.items)
            i.touch(q)
            q.items[:] = []
            return r
        want = i.facts.simp(args[0]) if isinstance(args[0], S) else args[0]
        r = btake(q.items, want)
        if r is None:
            i.emit("stream", o.attrs["$name"].v + ".misread", {"count": want, "next": bcat(*q.items)}, n)
            i.raise_("OSError", K("misaligned read"), n)
        i.touch(q)
        q.items[:] = r[1]
        return r[0]
    if name in ("readable", "writable"):
        return TRUE
    raise Unsupported("stream." + name)


@model("struct.Struct")
def _struct_obj(i, a, k, n):
    return Inst(Ext("struct.Struct"), {"format": a[0], "size": K(fmt_size(freeze(a[0]))) if fmt_size(freeze(a[0])) is not None else mk("size", freeze(a[0]))}, i.epoch)


@model("os.getenv", "os.environ.get")
def _getenv(i, a, k, n):
    t = mk("call", "os.getenv", freeze(a[0]))
    TYPES[t] = Ty("str", True)
    d = a[1] if len(a) > 1 else k.get("default", NONE)
    if isinstance(d, K) and d.v is None:
        return t
    return ite(none_atom(t), freeze(d), t)


@model("os.path.join")
def _pjoin(i, a, k, n):
    if len(a) == 1 and not _is_splat(a[0]):
        return a[0]
    if all(isinstance(x, K) for x in a):
        return K(_osp.join(*[x.v for x in a]))
    return mk("call", "os.path.join", *[freeze(x) for x in a])


@model("itertools.chain")
def _chain(i, a, k, n):
    out = []
    for x in a:
        out.extend(i.iter_items(x))
    return ListObj(out, i.epoch)


@model("itertools.chain.from_iterable")
def _chainf(i, a, k, n):
    out = []
    for x in i.iter_items(a[0]):
        if _is_splat(x):
            out.append(mk("splat", mk("flat", x.a[0])))
        else:
            out.extend(i.iter_items(x))
    return ListObj(out, i.epoch)


@model("os.walk", "os.scandir")
def _walk(i, a, k, n):
    t = mk("call", "os.walk", freeze(a[0]))
    TYPES[t] = Ty("list")
    return t


# --------------------------------------------------------------------------
# attributes


@model("sys.exc_info")
def _exc_info(i, a, k, n):
    ts = []
    for x in ("type", "value", "tb"):
        t = mk("excinfo", x)
        TYPES[t] = Ty("opaque")
        ts.append(t)
    return TupleV(ts)


@model("inspect.currentframe", "sys._getframe")
def _curframe(i, a, k, n):
    t = mk("frame", "current")
    TYPES[t] = Ty("opaque")
    return t


@model("os.path.isabs")
def _isabs(i, a, k, n):
    v = freeze(a[0])
    if isinstance(v, K):
        return B(str(v.v).startswith("/"))
    if v.op == "cat" and isinstance(v.a[0], K):
        return B(v.a[0].v.startswith("/"))
    return mk("meth", "startswith", v, K("/"))


import errno as _errno
import stat as _statmod

EXT_CONST = {
    "os.sep": K("/"), "os.linesep": K("\n"), "typing.TYPE_CHECKING": FALSE, "os.curdir": K("."), "os.pardir": K(".."),
}
EXT_CONST.update({"errno." + _n: K(getattr(_errno, _n)) for _n in dir(_errno) if _n.startswith("E")})
EXT_CONST.update({"stat." + _n: K(getattr(_statmod, _n)) for _n in dir(_statmod) if _n.startswith("S_I") and isinstance(getattr(_statmod, _n), int)})


def ext_attr(interp, ext, name):
    from .interp import canon_ext
    full = canon_ext(ext.name + "." + name)
    if full in EXT_CONST:
        return EXT_CONST[full]
    h = getattr(interp.cfg, "ext_attrs", None)
    if h and full in h:
        return h[full]
    if full in ("sys.argv",):
        t = mk("ext", full)
        TYPES[t] = Ty("list", False, None, T_STR)
        return t
    if full in ("sys.stdin", "sys.stdout", "sys.stderr", "sys.stdin.buffer", "sys.stdout.buffer"):
        return Ext(full)
    return Ext(full)


_FRAME_ATTRS = ("tb_frame", "f_back", "f_globals", "f_code", "f_locals")


def attr_model(interp, base, name):
    """Attributes of symbolic values of known external provenance."""
    if name in _FRAME_ATTRS and typeof(base).kind in ("opaque", "any"):
        t = mk("attr", base, name)
        TYPES.setdefault(t, Ty("opaque"))
        return t
    if base.op == "res" and base.a[0] == "subprocess.Popen" and name in ("stdin", "stdout", "stderr"):
        t = mk("attr", base, name)
        TYPES.setdefault(t, Ty("opaque", True))
        return t
    return None


def inst_attr_model(interp, base, name):
    return None


def item_model(interp, base, fi, n):
    return None


def enter_value(interp, cm):
    return cm if isinstance(cm, (K, S)) else cm


def run_ctx(interp, cm, body, node):
    from .interp import AbsRaise
    if cm.kind == "null":
        body(cm.data)
        return
    if cm.kind == "suppress":
        try:
            body(NONE)
        except AbsRaise as e:
            for c in cm.data:
                if interp.exc_matches(e.exc, c):
                    interp.emit("caught", cls_name(e.exc.cls), {"raised_at": K(str(e.loc))}, node)
                    return
            raise
        return
    if cm.kind == "closing":
        interp._with_protocol(cm.data, body, lambda a: (interp.call(interp.getattr_(cm.data, "close", node), [], {}, node), FALSE)[1])
        return
    h = cm.data
    if callable(h):
        h(interp, body, node)
        return
    body(NONE)


# --------------------------------------------------------------------------
# methods


def call_symbolic(interp, fn, args, kwargs, n):
    h = getattr(interp.cfg, "call_hook", None)
    if h is not None:
        r = h(interp, fn, args, kwargs, n)
        if r is not None:
            return r
    r = interp.fresh("callsym", fn, *args)
    interp.emit("callsym", show(fn), dict(argdict(args, kwargs), **{"$fn": fn}), n, res=r)
    interp.maybe_raise("callsym", n)
    return r


def _codec_args(args, kwargs):
    """The same codec is always written the same way: (encoding, errors=... if not strict)."""
    import codecs
    enc = freeze(args[0] if args else kwargs.get("encoding", K("utf-8")))
    err = freeze(args[1] if len(args) > 1 else kwargs.get("errors", K("strict")))
    if isinstance(enc, K) and isinstance(enc.v, str):
        try:
            enc = K(codecs.lookup(enc.v).name)
        except LookupError:
            pass
    return [enc], {} if err == K("strict") else {"errors": err}


_STR_PURE = {
    "strip", "lstrip", "rstrip", "lower", "upper", "replace", "capitalize", "title", "startswith", "endswith", "isdigit",
    "isalpha", "isspace", "isprintable", "split", "rsplit", "splitlines", "find", "rfind", "index", "count", "zfill", "ljust",
    "rjust", "encode", "decode", "removeprefix", "removesuffix", "partition", "rpartition", "hex", "strftime", "digest",
    "hexdigest", "isnumeric", "isalnum", "isupper", "islower", "center", "expandtabs", "casefold", "swapcase", "isidentifier",
    "isascii", "isdecimal", "translate", "isoformat", "timestamp", "bit_length", "as_posix", "is_absolute", "group", "groups", "to_bytes", "format_map", "end", "start", "span",
}


def call_method(interp, self_, name, args, kwargs, n):
    i = interp
    if isinstance(self_, S):
        self_ = i.facts.simp(self_)
        if isinstance(self_, S) and self_.op in ("ite", "or") and typeof(self_).kind not in ("str", "bytes"):
            self_ = i.split(self_)
    if isinstance(self_, SuperV):
        return super_method(i, self_, name, args, kwargs, n)
    if isinstance(self_, (ListObj, DictObj, SetObj, TupleV)):
        if name == "__contains__" and len(args) == 1:
            return i.in_(args[0], self_, n)
        if name == "__len__" and not args:
            return _len(i, [self_], {}, n)
        if name == "__getitem__" and len(args) == 1:
            return i.getitem(self_, args[0], n)
    if isinstance(self_, ListObj):
        return list_method(i, self_, name, args, kwargs, n)
    if isinstance(self_, DictObj):
        return dict_method(i, self_, name, args, kwargs, n)
    if isinstance(self_, SetObj):
        return set_method(i, self_, name, args, kwargs, n)
    if isinstance(self_, TupleV):
        if name == "index" or name == "count":
            return list_method(i, ListObj(self_.items, i.epoch), name, args, kwargs, n)
    if isinstance(self_, K):
        return const_method(i, self_, name, args, kwargs, n)
    if isinstance(self_, Inst):
        return inst_method(i, self_, name, args, kwargs, n)
    if isinstance(self_, S):
        return sym_method(i, self_, name, args, kwargs, n)
    if isinstance(self_, FnV) and name in ("setter", "getter", "deleter") and self_.kind == "property":
        self_.attrs["setter"] = args[0]
        return self_
    if isinstance(self_, (ModuleObj, ClassObj, PyFn, BoundV, FnV, TypeX, IterObj, CtxMgr)):
        if isinstance(self_, ModuleObj) and name == "__setattr__":
            return _setattr(i, [self_] + args, {}, n)
        if isinstance(self_, IterObj) and name == "__next__":
            return _next(i, [self_], {}, n)
    from .interp import Unsupported
    raise Unsupported(f"method {name} on {type(self_).__name__}")


def super_method(i, sv, name, args, kwargs, n):
    self_ = sv.self_
    if name == "__init__":
        if isinstance(self_, Inst) and "builtins.BaseException" in i.class_names(self_.cls):
            i.touch(self_)
            self_.attrs["args"] = TupleV(args)
        return NONE
    if name == "__setattr__":
        if isinstance(args[0], K):
            if isinstance(self_, Inst):
                i.touch(self_)
                self_.attrs[args[0].v] = args[1]
                i.emit("setattr", cls_name(self_.cls) + "." + args[0].v, {"value": args[1]}, n, raw=self_)
                return NONE
        return _setattr(i, [self_] + list(args), {}, n)
    if name == "__getattribute__":
        return _ogetattribute(i, [self_] + list(args), {}, n)
    if name == "__exit__":
        return NONE
    if name == "__enter__":
        return self_
    if name == "__init_subclass__":
        return NONE
    r = i.fresh("super." + name, *args)
    i.emit("meth", "super." + name, argdict(args, kwargs), n, res=r)
    return r


def const_method(i, self_, name, args, kwargs, n):
    v = self_.v
    if name == "join" and isinstance(v, (str, bytes)):
        items = i.try_items(args[0])
        if items is not None and not _has_splat(items):
            if all(isinstance(x, K) for x in items):
                try:
                    return K(v.join([x.v for x in items]))
                except TypeError:
                    i.raise_("TypeError", K("join"), n)
            if isinstance(v, str):
                out = []
                for j, x in enumerate(items):
                    if j:
                        out.append(K(v))
                    out.append(x if isinstance(x, (K, S)) else i.to_str(x))
                return cat(*[x if not (isinstance(x, S) and typeof(x).kind != "str") else x for x in out])
            if isinstance(v, bytes):
                out = []
                for j, x in enumerate(items):
                    if j:
                        out.append(K(v))
                    out.append(freeze(x))
                return bcat(*out)
        t = mk("join", self_, freeze(args[0]))
        return t
    if name == "format" and isinstance(v, str):
        import string
        out = []
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(v):
                if lit:
                    out.append(K(lit))
                if fld is None:
                    continue
                if fld == "":
                    x = args[auto]
                    auto += 1
                elif fld.isdigit():
                    x = args[int(fld)]
                elif fld.isidentifier() and fld in kwargs:
                    x = kwargs[fld]
                else:
                    raise IndexError
                if spec or conv:
                    x = mk("fmt", freeze(x), K(spec or ""), K(conv or ""))
                    TYPES[x] = T_STR
                else:
                    x = i.to_str(x)
                out.append(x)
            return cat(*out)
        except (IndexError, ValueError):
            return mk("meth", "format", self_, *[freeze(a) for a in args])
    fargs = []
    ok = not kwargs or all(isinstance(x, K) for x in kwargs.values())
    for a in args:
        if isinstance(a, S):
            a = i.facts.simp(a)
        if isinstance(a, K):
            fargs.append(a.v)
        elif isinstance(a, TupleV) and all(isinstance(x, K) for x in a.items):
            fargs.append(tuple(x.v for x in a.items))
        else:
            ok = False
    if ok and hasattr(v, name):
        try:
            r = getattr(v, name)(*fargs, **{k: x.v for k, x in kwargs.items()})
        except Exception as e:  # folding of a literal raised
            i.raise_(type(e).__name__, K(str(e)), n)
        if isinstance(r, list):
            return ListObj([K(x) for x in r], i.epoch)
        if isinstance(r, tuple):
            return TupleV([K(x) for x in r])
        try:
            return K(r)
        except TypeError:
            pass
    return mk("meth", name, self_, *[freeze(a) for a in args])


def list_method(i, l, name, args, kwargs, n):
    if name == "append":
        i.touch(l)
        l.items.append(args[0])
        return NONE
    if name == "extend":
        i.touch(l)
        l.items.extend(i.iter_items(args[0]))
        return NONE
    if name == "insert":
        i.touch(l)
        if isinstance(args[0], K):
            l.items.insert(args[0].v, args[1])
            return NONE
    if name == "pop":
        if not l.items:
            i.raise_("IndexError", K("pop from empty list"), n)
        idx = args[0] if args else K(-1)
        if isinstance(idx, K):
            if _is_splat(l.items[idx.v]):
                return i.elem_of(l.items[idx.v].a[0])
            i.touch(l)
            try:
                return l.items.pop(idx.v)
            except IndexError:
                i.raise_("IndexError", K("pop"), n)
    if name == "copy":
        return ListObj(l.items, i.epoch)
    if name == "clear":
        i.touch(l)
        l.items = []
        return NONE
    if name == "reverse":
        i.touch(l)
        if not _has_splat(l.items):
            l.items.reverse()
            return NONE
    if name == "sort":
        r = _sorted(i, [l], kwargs, n)
        i.touch(l)
        if isinstance(r, ListObj):
            l.items = list(r.items)
        return NONE
    if name == "index":
        for j, x in enumerate(l.items):
            if _is_splat(x):
                return mk("call", "list.index", freeze(l), freeze(args[0]))
            if i.decide_bool(i.eqv(x, args[0])):
                return K(j)
        i.raise_("ValueError", K("not in list"), n)
    if name == "count":
        if not _has_splat(l.items):
            return K(sum(1 for x in l.items if i.decide_bool(i.eqv(x, args[0]))))
        return mk("call", "list.count", freeze(l), freeze(args[0]))
    if name == "remove":
        for j, x in enumerate(l.items):
            if _is_splat(x):
                break
            if i.decide_bool(i.eqv(x, args[0])):
                i.touch(l)
                del l.items[j]
                return NONE
        else:
            i.raise_("ValueError", K("not in list"), n)
    if name in ("__iter__",):
        return l
    from .interp import Unsupported
    raise Unsupported("list method " + name)


def dict_method(i, d, name, args, kwargs, n):
    if name == "get":
        return i.dict_get(d, args[0], n, args[1] if len(args) > 1 else kwargs.get("default", NONE), True)
    if name == "items":
        r = [TupleV([k, v]) for k, v in d.pairs]
        if d.origin is not None:
            r.append(mk("splat", mk("items", d.origin)))
        return ListObj(r, i.epoch)
    if name == "keys":
        r = [k for k, _ in d.pairs]
        if d.origin is not None:
            r.append(mk("splat", d.origin))
        s = ListObj(r, i.epoch)
        return s
    if name == "values":
        r = [v for _, v in d.pairs]
        if d.origin is not None:
            r.append(mk("splat", mk("values", d.origin)))
        return ListObj(r, i.epoch)
    if name == "update":
        for a in args:
            i.dict_update(d, a)
        for k, v in kwargs.items():
            if k == "**":
                i.dict_update(d, v)
            else:
                i.setitem(d, K(k), v, n)
        return NONE
    if name == "copy":
        return DictObj(d.pairs, i.epoch, d.origin)
    if name == "setdefault":
        mark = K("$missing")
        r = i.dict_get(d, args[0], n, mark, True)
        if r is mark:
            v = args[1] if len(args) > 1 else NONE
            i.setitem(d, args[0], v, n)
            return v
        return r
    if name == "pop":
        fk = freeze(args[0])
        for j, (k, v) in enumerate(d.pairs):
            if freeze(k) is fk or i.decide_bool(i.eqv(args[0], k)):
                i.touch(d)
                del d.pairs[j]
                return v
        if d.origin is not None and i.decide(mk("in", fk, d.origin)):
            return mk("item", d.origin, fk)
        if len(args) > 1:
            return args[1]
        i.raise_("KeyError", fk, n)
    if name == "clear":
        i.touch(d)
        d.pairs = []
        d.origin = None
        return NONE
    if name == "__contains__":
        return i.in_(args[0], d, n)
    from .interp import Unsupported
    raise Unsupported("dict method " + name)


def set_method(i, s, name, args, kwargs, n):
    if name == "add":
        i.set_add(s, args[0])
        return NONE
    if name == "update":
        for a in args:
            for x in i.iter_items(a):
                i.set_add(s, x)
        return NONE
    if name in ("discard", "remove"):
        for j, x in enumerate(s.items):
            if not _is_splat(x) and i.decide_bool(i.eqv(x, args[0])):
                i.touch(s)
                del s.items[j]
                return NONE
        if name == "remove" and not _has_splat(s.items):
            i.raise_("KeyError", freeze(args[0]), n)
        return NONE
    if name in ("union", "__or__"):
        r = s
        for a in args:
            r = i.set_op(ast.BitOr(), r, a, n)
        return r if r is not s else SetObj(s.items, i.epoch)
    if name in ("difference", "__sub__"):
        r = s
        for a in args:
            r = i.set_op(ast.Sub(), r, a, n)
        return r
    if name in ("intersection", "__and__"):
        r = s
        for a in args:
            r = i.set_op(ast.BitAnd(), r, a, n)
        return r
    if name == "issubset":
        return conj([i.in_(x, args[0] if not isinstance(args[0], S) else args[0], n) for x in s.items])
    if name == "issuperset":
        return conj([i.in_(x, s, n) for x in i.iter_items(args[0])])
    if name == "isdisjoint":
        return not_(disj([i.in_(x, args[0], n) for x in s.items]))
    if name == "copy":
        return SetObj(s.items, i.epoch)
    if name == "pop":
        if not s.items:
            i.raise_("KeyError", K("pop from an empty set"), n)
        i.touch(s)
        return s.items.pop()
    if name == "clear":
        i.touch(s)
        s.items = []
        return NONE
    from .interp import Unsupported
    raise Unsupported("set method " + name)


def exit_stack(i, o, name, args, kwargs, n):
    from .interp import Unsupported, AbsRaise
    cbs = o.attrs["$cbs"]

    def push(f):
        i.touch(cbs)
        cbs.items.append(PyFn("exit", f))

    def leave(pending):
        """Run the callbacks in reverse order; the exception that is on its way afterwards, if any."""
        while cbs.items:
            i.touch(cbs)
            f = cbs.items.pop()
            e = pending.exc if pending is not None else None
            try:
                r = f.fn(i, [e.cls if isinstance(e, Inst) and isinstance(e.cls, (ClassObj, Ext)) else mk("exctype"), e, mk("tb")] if e is not None else [NONE, NONE, NONE], {}, n)
                if pending is not None and r is not None and i.truth(r):
                    pending = None
            except AbsRaise as x:
                pending = x
        return pending
    if name == "__enter__":
        return o
    if name == "$leave":
        return leave(args)
    if name == "callback":
        f, a, k = args[0], list(args[1:]), dict(kwargs)
        push(lambda ii, ea, ek, en: (ii.call(f, list(a), dict(k), n), NONE)[1])
        return f
    if name in ("enter_context", "push"):
        cm = args[0]
        if isinstance(cm, S):
            cm = i.split(cm)
        if isinstance(cm, CtxMgr) and cm.kind in ("null", "closing") and name == "enter_context":
            if cm.kind == "closing":
                push(lambda ii, ea, ek, en: (ii.call(ii.getattr_(cm.data, "close", n), [], {}, n), NONE)[1])
            return cm.data
        c = cm.cls if isinstance(cm, Inst) else i.classes.get(typeof(cm).cls) if isinstance(cm, S) and typeof(cm).kind == "inst" else None
        if isinstance(c, ClassObj):
            _, fe = c.find("__enter__")
            _, fx = c.find("__exit__")
            if fe is not None and fx is not None:
                v = i.call(BoundV(cm, fe), [], {}, n) if name == "enter_context" else cm
                push(lambda ii, ea, ek, en: ii.call(BoundV(cm, fx), ea, {}, n))
                return v
        if name == "push" and isinstance(cm, (FnV, BoundV, PyFn)):
            push(lambda ii, ea, ek, en: ii.call(cm, ea, {}, n))
            return cm
        if name == "enter_context" and not isinstance(cm, CtxMgr):
            fz = freeze(cm)
            i.emit("enter", show(fz) if not isinstance(fz, S) else fz.op, {"cm": fz}, n)
            push(lambda ii, ea, ek, en: (ii.emit("exit", fz.op if isinstance(fz, S) else "?", {"cm": fz}, n), FALSE)[1])
            return enter_value(i, cm)
        raise Unsupported("ExitStack." + name)
    if name == "pop_all":
        new = Inst(o.cls, {"$cbs": ListObj(list(cbs.items), i.epoch)}, i.epoch)
        i.touch(cbs)
        cbs.items = []
        return new
    if name == "close":
        e = leave(None)
        if e is not None:
            raise e
        return NONE
    raise Unsupported("ExitStack." + name)


def inst_method(i, o, name, args, kwargs, n):
    if name in ("with_traceback", "add_note"):
        return o
    if name == "_replace":
        new = Inst(o.cls, o.attrs, i.epoch)
        for k, v in kwargs.items():
            if k not in new.attrs:
                i.raise_("ValueError", K("unexpected field " + k), n)
            new.attrs[k] = v
        return new
    if name == "_asdict":
        return i.inst_dict(o)
    if name in ("__setattr__",):
        return _setattr(i, [o] + list(args), {}, n)
    if name in ("__getattribute__",):
        return _ogetattribute(i, [o] + list(args), {}, n)
    if isinstance(o.cls, Ext) and o.cls.name == "struct.Struct":
        if name == "pack":
            return i.call_ext("struct.pack", [o.attrs["format"]] + list(args), {}, n)
        if name in ("unpack", "unpack_from"):
            return i.call_ext("struct.unpack", [o.attrs["format"]] + list(args)[:1], {}, n)
    if isinstance(o.cls, Ext) and o.cls.name == "io.BytesIO":
        if i.cfg.meth_hook is not None:
            r = i.cfg.meth_hook(i, o, name, args, kwargs, n)
            if r is not None:
                return r
        return stream_method(i, o, name, args, kwargs, n)
    if isinstance(o.cls, Ext) and o.cls.name == "contextlib.ExitStack":
        return exit_stack(i, o, name, args, kwargs, n)
    if i.cfg.meth_hook is not None:
        r = i.cfg.meth_hook(i, o, name, args, kwargs, n)
        if r is not None:
            return r
    r = i.fresh("meth:" + name, *args)
    i.emit("meth", cls_name(o.cls) + "." + name, dict(argdict(args, kwargs)), n, res=r, raw=o)
    i.maybe_raise("meth:" + name, n)
    return r


def sym_method(i, s, name, args, kwargs, n):
    if i.facts.isnone(s) is True:
        i.raise_("AttributeError", K(f"'NoneType' object has no attribute '{name}'"), n)
    if i.cfg.meth_hook is not None:
        r = i.cfg.meth_hook(i, s, name, args, kwargs, n)
        if r is not None:
            return r
    ty = typeof(s)
    # class method of a typed instance (unbound path)
    if ty.kind == "inst":
        c = i.classes.get(ty.cls)
        if c is not None:
            _, f = c.find(name)
            if isinstance(f, FnV):
                return i.call(BoundV(s, f), args, kwargs, n)
    if name in ("startswith", "endswith") and s.op == "cat" and len(args) == 1 and not kwargs:
        fa_ = freeze(args[0])
        alts = [x.v for x in ([fa_] if isinstance(fa_, K) else fa_.a if fa_.op == "tuple" else [None]) if isinstance(x, K)]
        end = s.a[0] if name == "startswith" else s.a[-1]
        if isinstance(end, K) and alts and (isinstance(fa_, K) or len(alts) == len(fa_.a)):
            t = end.v
            res = []
            for x in alts:
                if len(x) <= len(t):
                    res.append(t.startswith(x) if name == "startswith" else t.endswith(x))
                elif (x.startswith(t) if name == "startswith" else x.endswith(t)):
                    res.append(None)
                else:
                    res.append(False)
            if True in res:
                return TRUE
            if None not in res:
                return FALSE
    if name == "format" and ty.kind == "str":
        return mk("meth", "format", s, *[freeze(a) for a in args])
    if name in ("items", "keys", "values") and not args:
        if s.op == "dict":
            pairs = [x for x in s.a if x.op == "kv"]
            more = [x for x in s.a if x.op == "more"]
            r = [TupleV([p.a[0], p.a[1]]) if name == "items" else p.a[0] if name == "keys" else p.a[1] for p in pairs]
            for m in more:
                r.append(mk("splat", mk("items", m.a[0]) if name == "items" else m.a[0] if name == "keys" else mk("values", m.a[0])))
            return ListObj(r, i.epoch)
        return mk(name, s)
    if name == "get" and ty.kind in ("dict", "any") and args:
        k = freeze(args[0])
        d = args[1] if len(args) > 1 else NONE
        key = (s, ("item", k))
        if key in i.symattrs:
            return i.symattrs[key]
        t = mk("in", k, s)
        if i.decide(t):
            return mk("item", s, k)
        return d
    if name == "copy" and not args:
        if ty.kind == "dict":
            return DictObj([], i.epoch, s)
        if ty.kind == "list":
            return ListObj([mk("splat", s)], i.epoch)
    if name in ("update", "append", "extend", "add", "remove", "discard", "pop", "clear", "insert", "setdefault", "sort", "popitem"):
        r = i.fresh("meth:" + name, s, *args)
        i.emit("meth", name, dict(argdict(args, kwargs), **{"$self": s}), n, res=r)
        i.maybe_raise("meth:" + name, n)
        return r
    if name == "join" and ty.kind in ("str",):
        items = i.try_items(args[0])
        if items is not None and not _has_splat(items):
            out = []
            for j, x in enumerate(items):
                if j:
                    out.append(s)
                out.append(i.to_str(x))
            return cat(*out)
        return mk("join", s, freeze(args[0]))
    if name == "to_bytes" and args and isinstance(args[0], K) and args[0].v in _INTFMT:
        order = args[1] if len(args) > 1 else kwargs.get("byteorder", K("big"))
        sg = kwargs.get("signed", FALSE)
        if isinstance(order, K) and sg in (TRUE, FALSE):
            f = _INTFMT[args[0].v]
            return i.call_ext("struct.pack", [K((">" if order.v == "big" else "<") + (f if sg is TRUE else f.upper())), s], {}, n)
    if name == "decode" and s.op == "meth" and s.a[0] == "encode":
        if _codec(s.a[2:]) == _codec(tuple(freeze(x) for x in args)):
            return s.a[1]
    if name == "encode" and s.op == "meth" and s.a[0] == "decode" and not _lossy(s):
        pass
    if name in ("decode", "index", "group") and ty.kind != "any":
        i.maybe_raise("meth:" + name, n)
    if name in ("encode", "decode"):
        args, kwargs = _codec_args(args, kwargs)
    if name in _STR_PURE:
        t = mk("meth", name, s, *[freeze(a) for a in args], *[mk("kw", k, freeze(v)) for k, v in sorted(kwargs.items())])
        if name in ("split", "rsplit", "splitlines") and t not in TYPES:
            TYPES[t] = Ty("list", False, None, T_BYTES if ty.kind == "bytes" else T_STR)
        if name in ("partition", "rpartition") and t not in TYPES:
            TYPES[t] = Ty("tuple", False, None, T_STR)
        return t
    if name == "read" and s.op == "res" and s.a[0] == "open" and args and not (args[0] is NONE or (isinstance(args[0], K) and isinstance(args[0].v, int) and args[0].v < 0)):
        return read_chunk(i, s, args[0], n)
    r = i.fresh("meth:" + name, s, *args)
    i.emit("meth", name, dict(argdict(args, kwargs), **{"$self": s}), n, res=r)
    i.maybe_raise("meth:" + name, n)
    return r


def read_chunk(i, f, size, n):
    """A limited read from an opened file: the file may end here, within this chunk, or go on (up to two full chunks are followed)."""
    from .interp import Unsupported
    i.maybe_raise("meth:read", n)
    files = dict(i.notes.get("$files", {}))
    st = dict(files.get(f, {"chunks": (), "eof": False}))
    files[f] = st
    i.notes["$files"] = files
    i.emit("meth", "read", {"0": size, "$self": f}, n)
    size = i.facts.simp(size) if isinstance(size, S) else size
    if not (isinstance(size, K) and isinstance(size.v, int) and size.v > 0):
        raise Unsupported("read of a variable amount")
    if st["eof"]:
        return K(b"")
    k = len(st["chunks"])
    c = i.choose(3 if k < 2 else 2, "file content")
    if c == 0:
        st["eof"] = True
        return K(b"")
    t = mk("chunk", f, K(k))
    TYPES.setdefault(t, T_BYTES)
    st["chunks"] += (t,)
    i.facts.assume(truthy_atom(t), True)
    i.facts.assume(eq_atom(mk("len", t), size), c == 2)
    if c == 1:
        st["eof"] = True
    return t


_INTFMT = {1: "b", 2: "h", 4: "i", 8: "q"}


@model("builtins.int.from_bytes")
def _from_bytes(i, a, k, n):
    data = a[0]
    order = a[1] if len(a) > 1 else k.get("byteorder", K("big"))
    sg = k.get("signed", FALSE)
    segs = bsegs(data)
    if len(segs) == 1 and blen(segs[0]) in _INTFMT and isinstance(order, K) and sg in (TRUE, FALSE):
        f = _INTFMT[blen(segs[0])]
        return i.call_ext("struct.unpack", [K((">" if order.v == "big" else "<") + (f if sg is TRUE else f.upper())), data], {}, n).items[0]
    t = mk("call", "int.from_bytes", freeze(data), freeze(order), freeze(sg))
    TYPES[t] = T_INT
    return t


def _codec(args):
    for a in args:
        if isinstance(a, K):
            return str(a.v).lower().replace("_", "-").replace("utf8", "utf-8")
        if isinstance(a, S) and a.op == "kw" and a.a[0] == "encoding" and isinstance(a.a[1], K):
            return str(a.a[1].v).lower()
    return "utf-8"


def _lossy(s):
    return True
