"""
Abstract values and the (solver-free) fact store.

Values are provenance terms: an interned tree that says *where a value comes
from* (parameter, attribute, result of call N, concatenation, ...).  Nothing is
ever evaluated concretely except literals.  ``Facts`` is a three-valued store
of atoms collected along one control-flow path; it decides an atom from the
facts by a fixed set of syntactic implications and answers "unknown" otherwise.
"""
from __future__ import annotations
import itertools

# --------------------------------------------------------------------------
# Terms


class V:
    """Base of every abstract value."""
    __slots__ = ()


_KCACHE: dict = {}


class K(V):
    """A literal constant (type-tagged, so that True != 1)."""
    __slots__ = ("v",)

    def __new__(cls, v):
        key = (type(v).__name__, v)
        r = _KCACHE.get(key)
        if r is None:
            r = object.__new__(cls)
            r.v = v
            _KCACHE[key] = r
        return r

    def __repr__(self):
        return repr(self.v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


def B(b):
    return TRUE if b else FALSE


_SCACHE: dict = {}


class S(V):
    """A symbolic (provenance) term: operator and arguments."""
    __slots__ = ("op", "a", "n")

    def __repr__(self):
        return show(self)


_cnt = itertools.count()


def mk(op, *args):
    key = (op, args)
    r = _SCACHE.get(key)
    if r is None:
        r = object.__new__(S)
        r.op = op
        r.a = args
        r.n = next(_cnt)
        _SCACHE[key] = r
    return r


def show(t, depth=0):
    if isinstance(t, K):
        return repr(t.v)
    if not isinstance(t, S):
        return str(t)
    if depth > 7:
        return "…"
    d = depth + 1
    a = t.a
    if t.op == "param":
        return str(a[0])
    if t.op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if t.op == "item":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if t.op == "res":
        return f"{a[0]}#{a[1]}({', '.join(show(x, d) for x in a[2:])})"
    if t.op == "cat":
        return "‹" + "".join(x.v if isinstance(x, K) and isinstance(x.v, str) else "{" + show(x, d) + "}" for x in a) + "›"
    if t.op == "eq":
        return f"({show(a[0], d)} == {show(a[1], d)})"
    if t.op == "none":
        return f"({show(a[0], d)} is None)"
    if t.op == "truthy":
        return f"bool({show(a[0], d)})"
    if t.op == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if t.op == "or":
        return f"({show(a[0], d)} or {show(a[1], d)})"
    if t.op == "and":
        return f"({show(a[0], d)} and {show(a[1], d)})"
    if t.op == "not":
        return f"(not {show(a[0], d)})"
    if t.op in ("meth",):
        return f"{show(a[1], d)}.{a[0]}({', '.join(show(x, d) for x in a[2:])})"
    if t.op == "call":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:])})"
    if t.op == "resolved":
        return f"resolved[{a[0]}]({show(a[1], d)})"
    return f"{t.op}({', '.join(show(x, d) for x in a)})"


def children(t):
    if isinstance(t, S):
        for x in t.a:
            if isinstance(x, (S, K)):
                yield x


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, sub):
    return any(x is sub for x in subterms(t))


# --------------------------------------------------------------------------
# Types (only used for nullness / truthiness / method resolution)


class Ty:
    __slots__ = ("kind", "nullable", "cls", "elem")

    def __init__(self, kind, nullable=False, cls=None, elem=None):
        self.kind = kind
        self.nullable = nullable
        self.cls = cls
        self.elem = elem

    def __repr__(self):
        return f"Ty({self.kind}{'?' if self.nullable else ''}{',' + str(self.cls) if self.cls else ''})"


T_ANY = Ty("any", True)
T_STR = Ty("str")
T_BYTES = Ty("bytes")
T_INT = Ty("int")
T_BOOL = Ty("bool")
T_LIST = Ty("list")
T_DICT = Ty("dict")

TYPES: dict = {}
"""Explicit type of a term (assigned by harnesses and by annotations)."""

BOOL_OPS = {"eq", "none", "truthy", "in", "isinst", "hasattr", "lt", "not", "is", "boolcall"}

STR_METHODS = {
    "strip", "lstrip", "rstrip", "lower", "upper", "replace", "format", "capitalize", "title", "decode", "join",
    "ljust", "rjust", "zfill", "removeprefix", "removesuffix", "expandtabs", "center", "casefold", "swapcase",
    "strftime", "hex", "isoformat",
}
STR_BOOL_METHODS = {"startswith", "endswith", "isdigit", "isalpha", "isspace", "isprintable", "isnumeric", "isidentifier", "isalnum", "isupper", "islower", "isascii", "isdecimal"}
STR_LIST_METHODS = {"split", "splitlines", "rsplit"}
BYTES_METHODS = {"encode", "digest", "to_bytes"}
INT_METHODS = {"find", "index", "count", "rfind", "rindex"}


def typeof(t):
    if isinstance(t, K):
        v = t.v
        if v is None:
            return Ty("none", True)
        return Ty(type(v).__name__)
    r = TYPES.get(t)
    if r is not None:
        return r
    if isinstance(t, S):
        op = t.op
        if op in BOOL_OPS:
            return T_BOOL
        if op in ("cat", "str", "join"):
            return T_STR
        if op == "resolved":
            return T_STR
        if op == "meth":
            m = t.a[0]
            if m in STR_METHODS:
                bt = typeof(t.a[1])
                if m in ("strip", "lstrip", "rstrip", "lower", "upper", "replace") and bt.kind == "bytes":
                    return T_BYTES
                return T_STR
            if m in STR_BOOL_METHODS:
                return T_BOOL
            if m in STR_LIST_METHODS:
                return T_LIST
            if m in BYTES_METHODS:
                return T_BYTES
            if m in INT_METHODS:
                return T_INT
        if op == "call":
            return CALL_TYPES.get(t.a[0], T_ANY)
        if op in ("sorted", "list", "listof"):
            return T_LIST
        if op in ("setdiff", "set", "setof"):
            return Ty("set")
        if op == "tuple":
            return Ty("tuple")
        if op == "dict":
            return T_DICT
        if op == "len":
            return T_INT
        if op == "obj":
            return Ty("inst", cls=t.a[0])
        if op in ("ref", "fn", "class", "mod", "ext"):
            return Ty("opaque")
        if op == "or":
            a, b = typeof(t.a[0]), typeof(t.a[1])
            if a.kind == b.kind or b.kind == "none":
                return Ty(a.kind, b.nullable or b.kind == "none", a.cls)
            if a.kind == "none":
                return b
            return Ty("any", b.nullable or b.kind == "none")
        if op == "ite":
            a, b = typeof(t.a[1]), typeof(t.a[2])
            n = a.nullable or b.nullable
            if a.kind == "none":
                return Ty(b.kind, True, b.cls)
            if b.kind == "none":
                return Ty(a.kind, True, a.cls)
            if a.kind == b.kind and a.cls == b.cls:
                return Ty(a.kind, n, a.cls)
            return Ty("any", n)
        if op == "slice":
            return Ty(typeof(t.a[0]).kind)
        if op == "item":
            bt = typeof(t.a[0])
            if bt.kind == "str":
                return T_STR
            if bt.elem is not None:
                return bt.elem
        if op == "bin":
            a = typeof(t.a[1])
            if a.kind in ("int", "str", "bytes", "list", "float"):
                return Ty(a.kind)
    return T_ANY


CALL_TYPES = {
    "os.path.join": T_STR, "os.path.dirname": T_STR, "os.path.basename": T_STR, "os.path.realpath": T_STR,
    "os.path.normpath": T_STR, "os.path.relpath": T_STR, "os.path.abspath": T_STR, "posixpath.join": T_STR,
    "os.path.exists": T_BOOL, "os.path.isfile": T_BOOL, "os.path.isdir": T_BOOL, "os.getcwd": T_STR,
    "os.path.samefile": T_BOOL, "oct": T_STR, "repr": T_STR, "int": T_INT, "struct.pack": T_BYTES,
    "hashlib.sha512": Ty("opaque"), "os.path.islink": T_BOOL, "os.path.isabs": T_BOOL, "callable": T_BOOL,
    "stat.S_ISDIR": T_BOOL, "stat.S_ISREG": T_BOOL, "stat.S_ISLNK": T_BOOL, "stat.S_ISCHR": T_BOOL,
    "stat.S_ISBLK": T_BOOL, "stat.S_ISFIFO": T_BOOL, "stat.S_ISSOCK": T_BOOL, "stat.S_IMODE": T_INT,
    "os.getuid": T_INT, "os.getgid": T_INT,
}

SCALARS = {"str", "bytes", "int", "bool", "float", "list", "dict", "set", "tuple", "any", "none"}


def always_truthy_when_not_none(ty):
    """Object types without __bool__/__len__."""
    return ty.kind in ("inst", "opaque")


# --------------------------------------------------------------------------
# Constructors with normalisation


def not_(t):
    if isinstance(t, K):
        return B(not t.v)
    if t.op == "not":
        x = t.a[0]
        if typeof(x).kind == "bool":
            return x
    return mk("not", t)


def ite(c, x, y):
    if isinstance(c, K):
        return x if c.v else y
    if x is y:
        return x
    return mk("ite", c, x, y)


def cat(*parts):
    """String concatenation; flattens and merges literals."""
    out = []
    for p in parts:
        if isinstance(p, S) and p.op == "cat":
            ps = p.a
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, K) and isinstance(q.v, str):
                if q.v == "":
                    continue
                if out and isinstance(out[-1], K):
                    out[-1] = K(out[-1].v + q.v)
                    continue
            out.append(q)
    if not out:
        return K("")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def tostr(t):
    if isinstance(t, K):
        return K(str(t.v))
    if typeof(t).kind == "str" and not typeof(t).nullable:
        return t
    if isinstance(t, S) and t.op == "ite":
        return mk("ite", t.a[0], tostr(t.a[1]), tostr(t.a[2]))
    return mk("str", t)


def none_atom(t):
    if isinstance(t, K):
        return B(t.v is None)
    return mk("none", t)


def truthy_atom(t):
    """Boolean term for bool(t)."""
    if isinstance(t, K):
        return B(bool(t.v))
    if t.op == "or":
        a, b = truthy_atom(t.a[0]), truthy_atom(t.a[1])
        return b if a is FALSE else TRUE if (a is TRUE or b is TRUE) else a if b is FALSE else mk("or", a, b)
    if t.op == "and":
        a, b = truthy_atom(t.a[0]), truthy_atom(t.a[1])
        return b if a is TRUE else FALSE if (a is FALSE or b is FALSE) else a if b is TRUE else mk("and", a, b)
    if t.op == "ite":
        return ite(truthy_atom(t.a[0]), truthy_atom(t.a[1]), truthy_atom(t.a[2]))
    if t.op == "not":
        return not_(truthy_atom(t.a[0])) if truthy_atom(t.a[0]) is not t.a[0] else t
    ty = typeof(t)
    if ty.kind == "bool" and not ty.nullable and t.op != "bin":
        return t if t.op in BOOL_OPS else mk("truthy", t)
    if always_truthy_when_not_none(ty):
        return not_(none_atom(t))
    if t.op == "len":
        return truthy_atom(t.a[0])
    if t.op in ("sorted", "listof", "setof"):
        return truthy_atom(t.a[0])
    if t.op in ("list", "tuple", "set"):
        if any(not (isinstance(x, S) and x.op == "splat") for x in t.a):
            return TRUE
        if not t.a:
            return FALSE
        if len(t.a) == 1:
            return truthy_atom(t.a[0].a[0])
    if t.op == "cat" and any(isinstance(x, K) and x.v for x in t.a):
        return TRUE
    if t.op == "str":
        k = typeof(t.a[0]).kind
        if k in ("int", "float", "bool"):
            return TRUE
    return mk("truthy", t)


def eq_atom(a, b):
    """Boolean term for a == b (on terms)."""
    if a is b:
        return TRUE
    if isinstance(a, K) and isinstance(b, K):
        return B(a.v == b.v)
    if isinstance(a, K):
        a, b = b, a
    if isinstance(b, K):
        if b.v is None:
            return none_atom(a)
        if isinstance(b.v, bool):
            ta = typeof(a)
            if ta.kind == "bool" and not ta.nullable:
                return truthy_atom(a) if b.v else not_(truthy_atom(a))
        ta = typeof(a).kind
        tb = typeof(b).kind
        if ta in ("str", "bytes", "list", "set", "dict", "tuple", "inst") and tb in ("str", "bytes", "int", "float", "bool") and ta != tb:
            return FALSE
        if ta == "str" and tb == "str" and isinstance(a, S) and a.op == "cat":
            if isinstance(a.a[0], K) and not b.v.startswith(a.a[0].v):
                return FALSE
            if isinstance(a.a[-1], K) and not b.v.endswith(a.a[-1].v):
                return FALSE
        return mk("eq", a, b)
    # structured
    if a.op == b.op and a.op in ("list", "tuple"):
        if all(not (isinstance(x, S) and x.op == "splat") for x in a.a + b.a):
            if len(a.a) != len(b.a):
                return FALSE
            return conj([eq_atom(x, y) for x, y in zip(a.a, b.a)])
    if a.op == "cat" and b.op == "cat" and len(a.a) == len(b.a) and all(
            (isinstance(x, K)) == (isinstance(y, K)) for x, y in zip(a.a, b.a)):
        ks = [(x, y) for x, y in zip(a.a, b.a) if isinstance(x, K)]
        if isinstance(a.a[0], K) and a.a[0] is not b.a[0] and len(a.a[0].v) == len(b.a[0].v):
            return FALSE
        vs = [(x, y) for x, y in zip(a.a, b.a) if not isinstance(x, K)]
        if all(x is y for x, y in ks) and len(vs) == 1:
            return eq_atom(*vs[0])
    if b.n < a.n:
        a, b = b, a
    return mk("eq", a, b)


def conj(ts):
    r = TRUE
    for t in reversed(list(ts)):
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        r = t if r is TRUE else mk("and", t, r)
    return r


def disj(ts):
    r = FALSE
    for t in reversed(list(ts)):
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        r = t if r is FALSE else mk("or", t, r)
    return r


# --------------------------------------------------------------------------
# Facts


class Infeasible(Exception):
    """The current path contradicts its own facts."""


class Facts:
    """Three-valued store of path facts."""

    def __init__(self, base=None):
        self.d: dict = dict(base) if base else {}
        self.rev = 0
        self.busy = False

    def copy(self):
        return Facts(self.d)

    # -- lookup -------------------------------------------------------------
    def _eqclass(self, t):
        seen = {t}
        st = [t]
        while st:
            x = st.pop()
            for atom, v in self.d.items():
                if v and atom.op == "eq":
                    a, b = atom.a
                    if a is x and b not in seen:
                        seen.add(b)
                        st.append(b)
                    elif b is x and a not in seen:
                        seen.add(a)
                        st.append(a)
        return seen

    def known(self, t, depth=0):
        """Truth value (True/False/None) of a *boolean* term."""
        if isinstance(t, K):
            return bool(t.v)
        if depth > 40:
            return None
        d = depth + 1
        op = t.op
        if op == "not":
            r = self.known(truthy_atom(t.a[0]), d)
            return None if r is None else not r
        v = self.d.get(t)
        if v is not None:
            return v
        if op == "and":
            a = self.known(truthy_atom(t.a[0]), d)
            if a is False:
                return False
            if a is True:
                return self.known(truthy_atom(t.a[1]), d)
            b = self.known(truthy_atom(t.a[1]), d)
            if b is False:
                return False
            return None
        if op == "or":
            a = self.known(truthy_atom(t.a[0]), d)
            if a is True:
                return True
            if a is False:
                return self.known(truthy_atom(t.a[1]), d)
            b = self.known(truthy_atom(t.a[1]), d)
            if b is True:
                return True
            return None
        if op == "ite":
            c = self.known(truthy_atom(t.a[0]), d)
            if c is True:
                return self.known(truthy_atom(t.a[1]), d)
            if c is False:
                return self.known(truthy_atom(t.a[2]), d)
            a = self._under(t.a[0], True, t.a[1], d)
            b = self._under(t.a[0], False, t.a[2], d)
            if a is not None and a == b:
                return a
            return None
        if op == "none":
            return self.isnone(t.a[0], d)
        if op == "truthy":
            return self.istrue(t.a[0], d)
        if op == "eq":
            return self.iseq(t.a[0], t.a[1], d)
        if op == "isinst":
            x, c = t.a
            for atom, val in self.d.items():
                if atom.op == "isinst" and atom.a[0] is x and val and atom.a[1] != c:
                    if DISJOINT_TYPES(atom.a[1], c):
                        return False
            if self.d.get(mk("none", x)):
                return False
            return None
        if op == "lt":
            a, b = t.a
            if self.d.get(mk("lt", b, a)):
                return False
            e = self.iseq(a, b, d)
            if e:
                return False
            ca = self._constof(a)
            cb = self._constof(b)
            if ca is not None and cb is not None:
                try:
                    return ca.v < cb.v
                except TypeError:
                    return None
            # len() bounds
            if isinstance(b, S) and b.op == "len" and isinstance(a, K) and a.v == 0:
                return self.known(truthy_atom(b.a[0]), d)
            if isinstance(a, S) and a.op == "len" and isinstance(b, K):
                if b.v <= 0:
                    return False
                if b.v == 1:
                    r = self.known(truthy_atom(a.a[0]), d)
                    return None if r is None else not r
            return None
        if op == "in":
            x, c = t.a
            if isinstance(c, S) and self.known(truthy_atom(c), d) is False:
                return False
            return None
        return None

    def _constof(self, t):
        if isinstance(t, K):
            return t
        for x in self._eqclass(t):
            if isinstance(x, K):
                return x
        return None

    def _under(self, cond, val, t, d):
        f = Facts(self.d)
        try:
            f.assume(truthy_atom(cond), val)
        except Infeasible:
            return None
        return f.known(truthy_atom(t), d)

    def isnone(self, t, d=0):
        if isinstance(t, K):
            return t.v is None
        v = self.d.get(mk("none", t))
        if v is not None:
            return v
        ty = typeof(t)
        if not ty.nullable and ty.kind != "any":
            return False
        if self.d.get(mk("truthy", t)):
            return False
        if t.op == "or":
            a, b = t.a
            ta = self.known(truthy_atom(a), d + 1)
            if ta is True:
                return False
            if ta is False:
                return self.isnone(b, d + 1)
            if self.isnone(b, d + 1) is False:
                return False
            return None
        if t.op == "ite":
            c, x, y = t.a
            kc = self.known(truthy_atom(c), d + 1)
            if kc is True:
                return self.isnone(x, d + 1)
            if kc is False:
                return self.isnone(y, d + 1)
            if d > 12:
                return None
            r = []
            for val, br in ((True, x), (False, y)):
                f = Facts(self.d)
                try:
                    f.assume(truthy_atom(c), val)
                    r.append(f.isnone(br, d + 1))
                except Infeasible:
                    pass
            if r and all(q is not None and q == r[0] for q in r):
                return r[0]
            return None
        for x in self._eqclass(t):
            if x is t:
                continue
            if isinstance(x, K):
                return x.v is None
            v = self.d.get(mk("none", x))
            if v is not None:
                return v
            ty = typeof(x)
            if not ty.nullable and ty.kind != "any":
                return False
        for atom, val in self.d.items():
            if val and atom.op == "isinst" and atom.a[0] is t:
                return False
        return None

    def istrue(self, t, d=0):
        if isinstance(t, K):
            return bool(t.v)
        v = self.d.get(mk("truthy", t))
        if v is not None:
            return v
        n = self.d.get(mk("none", t))
        if n:
            return False
        ty = typeof(t)
        if always_truthy_when_not_none(ty):
            n = self.isnone(t, d + 1)
            return None if n is None else not n
        for x in self._eqclass(t):
            if isinstance(x, K):
                return bool(x.v)
            if x is not t:
                v = self.d.get(mk("truthy", x))
                if v is not None:
                    return v
        if t.op in ("or", "and", "ite"):
            return self.known(truthy_atom(t), d + 1)
        return None

    def iseq(self, a, b, d=0):
        r = eq_atom(a, b)
        if isinstance(r, K):
            return bool(r.v)
        if r.op != "eq":
            return self.known(r, d + 1)
        v = self.d.get(r)
        if v is not None:
            return v
        a2, b2 = self.simp(a), self.simp(b)
        if a2 is not a or b2 is not b:
            return self.iseq(a2, b2, d + 1) if d < 20 else None
        ca = self._eqclass(a)
        if b in ca:
            return True
        cb = self._eqclass(b)
        ka = [x for x in ca if isinstance(x, K)]
        kb = [x for x in cb if isinstance(x, K)]
        if ka and kb:
            return ka[0].v == kb[0].v
        for x in ca:
            for y in cb:
                at = eq_atom(x, y)
                if at is FALSE:
                    return False
                if not isinstance(at, K) and self.d.get(at) is False:
                    return False
        if not self.busy:
            self.busy = True
            try:
                for at, val in list(self.d.items()):
                    if at.op == "eq" and any(isinstance(x, S) and x.op in ("or", "ite", "and") for x in at.a):
                        l, r2 = self.simp(at.a[0]), self.simp(at.a[1])
                        if (l is a and r2 is b) or (l is b and r2 is a):
                            return val
            finally:
                self.busy = False
        na, nb = self.isnone(a, d + 1), self.isnone(b, d + 1)
        if na is not None and nb is not None:
            if na and nb:
                return True
            if na != nb:
                return False
        if ka or kb:
            k = (ka or kb)[0]
            o = b if ka else a
            tr = self.istrue(o, d + 1)
            if tr is not None and tr != bool(k.v):
                return False
            if isinstance(k.v, bool) and isinstance(o, S) and typeof(o).kind == "bool":
                if tr is True:
                    return k.v
                if tr is False and self.isnone(o, d + 1) is False:
                    return not k.v
            if isinstance(o, S):
                for atom, val in self.d.items():
                    if atom.op == "isinst" and atom.a[0] is o:
                        tn = type(k.v).__name__
                        if val and DISJOINT_TYPES(atom.a[1], tn):
                            return False
                        if not val and atom.a[1] == tn:
                            return False
        # ite/or split
        for p, q in ((a, b), (b, a)):
            if isinstance(p, S) and p.op in ("ite", "or") and d < 8:
                c = p.a[0]
                br = (p.a[1], p.a[2]) if p.op == "ite" else (p.a[0], p.a[1])
                rs = []
                for val, x in ((True, br[0]), (False, br[1])):
                    f = Facts(self.d)
                    try:
                        f.assume(truthy_atom(c), val)
                    except Infeasible:
                        continue
                    rs.append(f.iseq(x, q, d + 1))
                if rs and all(z is not None and z == rs[0] for z in rs):
                    return rs[0]
        return None

    # -- update -------------------------------------------------------------
    def assume(self, t, val):
        """Record that boolean term t has the given truth value."""
        k = self.known(t)
        if k is not None:
            if k != val:
                raise Infeasible()
            if isinstance(t, K):
                return
        if isinstance(t, K):
            return
        op = t.op
        if op == "not":
            self.assume(truthy_atom(t.a[0]), not val)
            return
        if op == "and" and val:
            self.assume(truthy_atom(t.a[0]), True)
            self.assume(truthy_atom(t.a[1]), True)
            return
        if op == "or" and not val:
            self.assume(truthy_atom(t.a[0]), False)
            self.assume(truthy_atom(t.a[1]), False)
            return
        if op == "and":
            a = self.known(truthy_atom(t.a[0]))
            if a is True:
                self.assume(truthy_atom(t.a[1]), False)
                return
        if op == "or":
            a = self.known(truthy_atom(t.a[0]))
            if a is False:
                self.assume(truthy_atom(t.a[1]), True)
                return
        if op == "ite":
            c = self.known(truthy_atom(t.a[0]))
            if c is not None:
                self.assume(truthy_atom(t.a[1] if c else t.a[2]), val)
                return
        self.rev += 1
        self.d[t] = val

    def consistent(self):
        """Re-checks every recorded fact against the others."""
        for atom, val in list(self.d.items()):
            del self.d[atom]
            try:
                k = self.known(atom)
            finally:
                self.d[atom] = val
            if k is not None and k != val:
                return False
        return True

    def simp(self, t, depth=0):
        """Simplify a value term under the facts (selects ite/or branches)."""
        if not isinstance(t, S) or depth > 12:
            return t
        if t.op == "ite":
            c = self.known(truthy_atom(t.a[0]))
            if c is not None:
                return self.simp(t.a[1] if c else t.a[2], depth + 1)
            return t
        if t.op == "or":
            c = self.known(truthy_atom(t.a[0]))
            if c is not None:
                return self.simp(t.a[0] if c else t.a[1], depth + 1)
            return t
        if t.op == "and":
            c = self.known(truthy_atom(t.a[0]))
            if c is not None:
                return self.simp(t.a[1] if c else t.a[0], depth + 1)
            return t
        if t.op in BOOL_OPS:
            k = self.known(t)
            if k is not None:
                return B(k)
        return t

    def deep(self, t, depth=0):
        """Simplify everywhere inside the term."""
        if not isinstance(t, S) or depth > 12:
            return t
        t = self.simp(t)
        if not isinstance(t, S):
            return t
        new = tuple(self.deep(x, depth + 1) if isinstance(x, S) else x for x in t.a)
        if new == t.a:
            return t
        if t.op == "cat":
            return cat(*new)
        if t.op == "str":
            return tostr(new[0])
        if t.op == "eq":
            return eq_atom(*new)
        r = mk(t.op, *new)
        if t in TYPES and r not in TYPES:
            TYPES[r] = TYPES[t]
        return r


_BASIC = {"str", "bytes", "int", "list", "dict", "tuple", "set", "float", "bool", "NoneType", "frozenset"}


def _disjoint(a, b):
    if a in _BASIC and b in _BASIC and a != b:
        return {a, b} != {"bool", "int"}
    if (a in _BASIC) != (b in _BASIC):
        return a not in ("object",) and b not in ("object",)
    return _CLASS_DISJOINT(a, b)


def _no_class_info(a, b):
    return False


_CLASS_DISJOINT = _no_class_info


def set_class_disjoint(fn):
    global _CLASS_DISJOINT
    _CLASS_DISJOINT = fn


def DISJOINT_TYPES(a, b):
    return _disjoint(a, b)
