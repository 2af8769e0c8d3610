"""
Behaviour-preserving rewrites of the whole source tree, on which every check has to stay quiet and to decide as much as before.

    python3 tools/autorefactor.py [-v] [names]

Each rewrite is applied to every file of a scratch copy; then all checks are run on it. Printed: exit codes other than 0 and rules that became undecided.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from fa.registry import REGISTRY  # noqa: E402


class Stmts(ast.NodeTransformer):
    """Base: self.stmt(node) -> list of statements."""

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out = []
                for s in b:
                    r = self.stmt(s)
                    out.extend(r if isinstance(r, list) else [r])
                setattr(node, f, out)
        return node

    def stmt(self, s):
        return s


class Counter:
    n = 0

    def fresh(self, p="tmp"):
        Counter.n += 1
        return f"_{p}{Counter.n}"


class ReturnTemp(Stmts, Counter):
    """return X -> t = X; return t"""

    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh("ret")
            return [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
        return s


class CondTemp(Stmts, Counter):
    """if X: -> t = X; if t: (not for elif)"""

    def generic_visit(self, node):
        return super().generic_visit(node)

    def stmt(self, s):
        if isinstance(s, ast.If) and not any(isinstance(x, (ast.NamedExpr,)) for x in ast.walk(s.test)):
            t = self.fresh("cond")
            test, s.test = s.test, ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], test), s]
        return s


class SwapIf(ast.NodeTransformer):
    """if a: X else: Y -> if not a: Y else: X"""

    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


class AndNest(ast.NodeTransformer):
    """if a and b: X -> if a: if b: X (without else)"""

    def visit_If(self, s):
        self.generic_visit(s)
        if not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return s


class EqSwap(ast.NodeTransformer):
    """a == b -> b == a, a is None -> None is a, a < b -> b > a"""
    R = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Is: ast.Is, ast.IsNot: ast.IsNot}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.R and not any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(n)):
            return ast.Compare(n.comparators[0], [self.R[type(n.ops[0])]()], [n.left])
        return n


class DeMorgan(ast.NodeTransformer):
    """a and b -> not (not a or not b) in tests"""

    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, ast.BoolOp) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
            op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in s.test.values]))
        return s


class FStr(ast.NodeTransformer):
    """f"..{x}.." -> "..{}..".format(x)"""

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        fmt, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += v.value.replace("{", "{{").replace("}", "}}")
            else:
                spec = ""
                if v.format_spec is not None:
                    if isinstance(v.format_spec, ast.Call) or not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ":" + "".join(x.value for x in v.format_spec.values)
                fmt += "{" + ("!" + chr(v.conversion) if v.conversion != -1 else "") + spec + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n       # keep the specification


class FConcat(ast.NodeTransformer):
    """f"a{x}" -> "a" + str(x)"""

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif v.format_spec is None and v.conversion in (-1, 114):
                parts.append(ast.Call(ast.Name("repr" if v.conversion == 114 else "str", ast.Load()), [self.visit(v.value)], []))
            else:
                return n
        if not parts:
            return ast.Constant("")
        e = parts[0]
        for x in parts[1:]:
            e = ast.BinOp(e, ast.Add(), x)
        return e


class CompLoop(Stmts, Counter):
    """x = [e for ...] -> loop; return likewise"""

    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return, ast.AnnAssign)) and isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)):
            if isinstance(s, ast.Assign) and len(s.targets) != 1:
                return s
            t = self.fresh("acc")
            ren = {}
            for g in v.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        ren[x.id] = self.fresh(x.id)

            class R(ast.NodeTransformer):
                def visit_Name(s2, n):
                    return ast.Name(ren.get(n.id, n.id), n.ctx)
            first_iter = copy.deepcopy(v.generators[0].iter)
            v = R().visit(v)
            v.generators[0].iter = first_iter
            N = ast.Name(t, ast.Load())
            if isinstance(v, ast.ListComp):
                init, step = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(N, "append", ast.Load()), [v.elt], []))
            elif isinstance(v, ast.SetComp):
                init, step = ast.Call(ast.Name("set", ast.Load()), [], []), ast.Expr(ast.Call(ast.Attribute(N, "add", ast.Load()), [v.elt], []))
            else:
                init, step = ast.Dict([], []), ast.Assign([ast.Subscript(N, v.key, ast.Store())], v.value)
            body = [step]
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            s.value = N
            return [ast.Assign([ast.Name(t, ast.Store())], init)] + body + [s]
        return s


class WhileIter(Stmts, Counter):
    """for x in X: B -> it = iter(X); while True: try: x = next(it) except StopIteration: break; B  (no else)"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            t = self.fresh("it")
            nxt = ast.Try([ast.Assign([s.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(t, ast.Load())], []))],
                          [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])
            return [ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [s.iter], [])),
                    ast.While(ast.Constant(True), [nxt] + s.body, [])]
        return s


class Enum(Stmts, Counter):
    """for x in X -> for _i, x in enumerate(X)"""

    def stmt(self, s):
        if isinstance(s, ast.For):
            s.target = ast.Tuple([ast.Name(self.fresh("i"), ast.Store()), s.target], ast.Store())
            s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
        return s


class ListIter(Stmts):
    """for x in X -> for x in list(X)"""

    def stmt(self, s):
        if isinstance(s, ast.For):
            s.iter = ast.Call(ast.Name("list", ast.Load()), [s.iter], [])
        return s


class Alpha(ast.NodeTransformer):
    """Renames the local variables of functions (not parameters)."""

    def visit_FunctionDef(self, f):
        used_elsewhere = set()
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                used_elsewhere |= set(x.names)
        params = {a.arg for x in ast.walk(f) if isinstance(x, ast.arguments) for a in x.posonlyargs + x.args + x.kwonlyargs + [y for y in (x.vararg, x.kwarg) if y]}
        stores = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - used_elsewhere
        imported = {(a.asname or a.name).split(".")[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        cls = any(isinstance(x, ast.ClassDef) for x in ast.walk(f))
        if cls:
            return f
        stores -= imported
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in stores:
                x.id = x.id + "_v"
            elif isinstance(x, ast.ExceptHandler) and x.name and x.name in stores:
                x.name = x.name + "_v"
        return f
    visit_AsyncFunctionDef = visit_FunctionDef


class Noop(ast.NodeTransformer):
    """a statement without effect at the start of each function, after the docstring"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and isinstance(f.body[0].value.value, str) else 0
        f.body.insert(k, ast.parse("_unused = [0][0]").body[0])
        return f


class ElseAfterReturn(ast.NodeTransformer):
    """if a: return x; rest -> if a: return x else: rest"""

    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and body[i + 1:]:
                s.orelse = self.fix(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.fix(f.body)
        return f

    def visit_For(self, f):
        self.generic_visit(f)
        f.body = self.fix(f.body)
        return f
    visit_With = visit_For
    visit_While = visit_For


class IfExp(Stmts):
    """x = a if c else b -> if c: x = a else: x = b"""

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return ast.If(s.value.test, [a], [b])
        return s


class OrExp(Stmts, Counter):
    """x = a or b -> x = a; if not x: x = b"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BoolOp) and isinstance(s.value.op, ast.Or):
            t = self.fresh("or")
            out = [ast.Assign([ast.Name(t, ast.Store())], s.value.values[0])]
            for v in s.value.values[1:]:
                out.append(ast.If(ast.UnaryOp(ast.Not(), ast.Name(t, ast.Load())), [ast.Assign([ast.Name(t, ast.Store())], v)], []))
            return out + [ast.Assign(s.targets, ast.Name(t, ast.Load()))]
        return s


class ArgTemp(Stmts, Counter):
    """f(g(x)) as a statement or assignment -> t = g(x); f(t)"""

    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) and v.args \
                and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(v.func)):
            out = []
            for k, a in enumerate(v.args):
                if not isinstance(a, (ast.Constant, ast.Name, ast.Lambda)) and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(a)):
                    t = self.fresh("arg")
                    out.append(ast.Assign([ast.Name(t, ast.Store())], a))
                    v.args[k] = ast.Name(t, ast.Load())
            return out + [s]
        return s


class KwTemp(Stmts, Counter):
    """f(k=v) -> kw = dict(k=v); f(**kw)"""

    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(v, ast.Call) and len(v.keywords) > 1 and all(k.arg for k in v.keywords) \
                and not any(isinstance(x, ast.Call) for a in v.args for x in ast.walk(a)):
            t = self.fresh("kw")
            a = ast.Assign([ast.Name(t, ast.Store())], ast.Call(ast.Name("dict", ast.Load()), [], v.keywords))
            v.keywords = [ast.keyword(None, ast.Name(t, ast.Load()))]
            return [a, s]
        return s


class ListTemp(Stmts, Counter):
    """f([a, b], ..) -> t = []; t.append(a) ... ; f(t)"""

    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Expr, ast.Assign)) and isinstance(v, ast.Call) and v.args and isinstance(v.args[0], ast.List) and isinstance(v.func, (ast.Name, ast.Attribute)):
            t = self.fresh("argv")
            out = [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()))]
            for e in v.args[0].elts:
                m, e = ("extend", e.value) if isinstance(e, ast.Starred) else ("append", e)
                out.append(ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), m, ast.Load()), [e], [])))
            v.args[0] = ast.Name(t, ast.Load())
            return out + [s]
        return s


class Private(ast.NodeTransformer):
    """Renames private module functions and methods (_x -> _x_impl)."""
    NAMES = set()

    def n(self, x):
        return x + "_impl" if x in self.NAMES else x

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.name = self.n(f.name)
        return f

    def visit_Name(self, n):
        n.id = self.n(n.id)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.n(n.attr)
        return n

    def visit_alias(self, a):
        a.name = self.n(a.name)
        return a


class WithTemp(Stmts, Counter):
    """with X as y -> cm = X; with cm as y"""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call):
            t = self.fresh("cm")
            a = ast.Assign([ast.Name(t, ast.Store())], s.items[0].context_expr)
            s.items[0].context_expr = ast.Name(t, ast.Load())
            return [a, s]
        return s


class WithStack(Stmts, Counter):
    """with X as y: B -> with contextlib.ExitStack() as st: y = st.enter_context(X); B"""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1:
            t = self.fresh("stack")
            c = ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "enter_context", ast.Load()), [s.items[0].context_expr], [])
            first = ast.Assign([s.items[0].optional_vars], c) if s.items[0].optional_vars else ast.Expr(c)
            st = ast.Call(ast.Attribute(ast.Call(ast.Name("__import__", ast.Load()), [ast.Constant("contextlib")], []), "ExitStack", ast.Load()), [], [])
            return ast.With([ast.withitem(st, ast.Name(t, ast.Store()))], [first] + s.body)
        return s


class AugAssign(Stmts):
    """x += y -> x = x + y for names that are strings or numbers: only with constant operands"""

    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and isinstance(s.value, (ast.Constant, ast.JoinedStr)):
            return ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return s


class Outline(ast.NodeTransformer, Counter):
    """f(params): body -> f(params): return f_inner(params); the body moves to a new module level function"""

    def __init__(self):
        self.new = []

    def visit_ClassDef(self, c):
        return c

    def visit_FunctionDef(self, f):
        a = f.args
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) or a.vararg or a.kwarg or f.name == "__getattr__":
            return f
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "globals", "super") for x in ast.walk(f)):
            return f
        g = copy.deepcopy(f)
        g.name = "_do_" + f.name.lstrip("_")
        g.decorator_list = []
        for x in g.args.args + g.args.kwonlyargs:
            x.annotation = None
        g.args.defaults = []
        g.args.kw_defaults = [None for _ in g.args.kwonlyargs]
        g.returns = None
        self.new.append(g)
        k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body = f.body[:k] + [ast.Return(ast.Call(ast.Name(g.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args],
                                                   [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]))]
        return f


class OutlineMeth(ast.NodeTransformer):
    """The bodies of methods move to new private methods."""

    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.args.vararg or f.args.kwarg or f.name in ("__init__", "__getattribute__") or not f.args.args or f.args.args[0].arg != "self":
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
                continue
            g = copy.deepcopy(f)
            g.name = "_do_" + f.name.strip("_")
            g.args.defaults = []
            g.args.kw_defaults = [None for _ in g.args.kwonlyargs]
            new.append(g)
            k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            f.body = f.body[:k] + [ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), g.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in f.args.args[1:]],
                                                       [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in f.args.kwonlyargs]))]
        c.body += new
        return c


class Inst(ast.NodeTransformer):
    """with-blocks and branches: 'x is not None' -> 'not x is None'; 'x not in y' -> 'not x in y'"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.IsNot, ast.NotIn, ast.NotEq)):
            op = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}[type(n.ops[0])]()
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [op], n.comparators))
        return n


class GenExp(ast.NodeTransformer):
    """any(e for x in X) -> any([e for x in X]) etc."""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all", "sum", "tuple", "list", "set", "sorted", "max", "min") or isinstance(n.func, ast.Attribute) and n.func.attr == "join":
            n.args = [ast.ListComp(a.elt, a.generators) if isinstance(a, ast.GeneratorExp) else a for a in n.args]
        return n


class ReRaise(ast.NodeTransformer):
    """try: B -> try: B except BaseException: raise, for each function body of more than two statements"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return f
        k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        if len(f.body) - k > 1:
            f.body = f.body[:k] + [ast.Try(f.body[k:], [ast.ExceptHandler(ast.Name("BaseException", ast.Load()), None, [ast.Raise(None, None)])], [], [])]
        return f


class TryFinally(ast.NodeTransformer):
    """function bodies in try: ... finally: pass"""

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        k = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        if len(f.body) - k > 1 and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in f.body):
            f.body = f.body[:k] + [ast.Try(f.body[k:], [], [], [ast.Pass()])]
        return f


class Ident(ast.NodeTransformer):
    pass


ALL = dict(unparse=Ident, returntemp=ReturnTemp, condtemp=CondTemp, swapif=SwapIf, andnest=AndNest, eqswap=EqSwap, demorgan=DeMorgan, fstr=FStr, fconcat=FConcat, comploop=CompLoop, whileiter=WhileIter,
           enum=Enum, listiter=ListIter, alpha=Alpha, noop=Noop, elseafter=ElseAfterReturn, ifexp=IfExp, orexp=OrExp, argtemp=ArgTemp, kwtemp=KwTemp, listtemp=ListTemp, private=Private, withtemp=WithTemp,
           withstack=WithStack, augassign=AugAssign, outline=Outline, outlinemeth=OutlineMeth, inst=Inst, genexp=GenExp, reraise=ReRaise, tryfinally=TryFinally)


def apply(name, src):
    files = [os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith(".py")]
    if name == "private":
        ns = set()
        for p in files:
            for x in ast.walk(ast.parse(open(p, encoding="utf-8").read())):
                if isinstance(x, ast.FunctionDef) and x.name.startswith("_") and not x.name.startswith("__"):
                    ns.add(x.name)
        Private.NAMES = ns
    for p in files:
        t = ast.parse(open(p, encoding="utf-8").read())
        tr = ALL[name]()
        t = tr.visit(t)
        if name == "outline":
            k = next((i for i, s in enumerate(t.body) if not (isinstance(s, (ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr))), len(t.body))
            t.body[k:k] = tr.new
        ast.fix_missing_locations(t)
        s = ast.unparse(t)
        compile(s, p, "exec")
        open(p, "w", encoding="utf-8").write(s + "\n")


def load(ev, p):
    with open(os.path.join(ev, p + ".json")) as f:
        return json.load(f)


def run(src, out, verbose):
    def one(p):
        r = subprocess.run([sys.executable, "-m", "fa.run", p, "--tier", "quick", "--src", src, "--out", out], cwd=ROOT, capture_output=True, text=True)
        return p, r.returncode, r.stdout + r.stderr
    with ThreadPoolExecutor(7) as ex:
        return list(ex.map(one, sorted(REGISTRY)))


def undecided(ev, p):
    try:
        e = load(ev, p)
    except OSError:
        return None
    return e


def report(n, base, d, rs, verbose):
    bad = [(p, rc) for p, rc, _ in rs if rc]
    less = []
    for p in sorted(REGISTRY):
        e = undecided(d, p)
        if e is None:
            continue
        a, b = base[p]["coverage"]["obligations_by_rule"], e["coverage"]["obligations_by_rule"]
        ua, ub = base[p]["coverage"]["undecided"], e["coverage"]["undecided"]
        gone = [f"{k} {a[k]}->{b.get(k, 0)}" for k in a if b.get(k, 0) < 0.8 * a[k]]
        if gone or ub > ua * 1.3 + 2:
            less.append(f"{p}: {gone} und {ua}->{ub} " + (str(e["coverage"]["undecided_reasons"][:2])[:300] if ub > ua else ""))
    print(n, "ok" if not bad else "ALARM " + str(bad), "\n   less: " + "\n   less: ".join(less) if less else "", flush=True)
    if verbose:
        for p, rc, o in rs:
            if rc:
                print(p, o[:3000])


def main():
    args = sys.argv[1:]
    verbose = "-v" in args
    names = [a for a in args if a != "-v"] or list(ALL)
    d0 = tempfile.mkdtemp(prefix="ar")
    try:
        run("/repo/src", d0, False)
        base = {p: undecided(d0, p) for p in sorted(REGISTRY)}
        for n in names:
            d = tempfile.mkdtemp(prefix="ar")
            try:
                shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
                apply(n, d + "/src")
                rs = run(d + "/src", d, verbose)
                report(n, base, d, rs, verbose)
            finally:
                shutil.rmtree(d)
    finally:
        shutil.rmtree(d0)


if __name__ == "__main__":
    main()
