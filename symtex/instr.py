"""symtex.instr -- loads Python source through an AST transformation that routes the
operations C code would perform on native str/dict/set through symtex.values."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rx
from .fs import to_symbolic
from .core import E, tick, Unsupported, StepLimit
from .values import (
    CharCode, SymStr, SymInt, SymBool, SymDict, SymSet, SymChar, Opaque, mkstr, is_str, decide, sym_join,
    percent_format, brace_format, fmt_value, to_text, contains_symbolic, eq_cond, mk_or,
    sym_int, sym_float, is_sym_key, cond_of, sbool, items_of,
)

REPO = os.environ.get("SYMTEX_REPO", "/repo")

NAME_CALLS = {"str", "int", "float", "dict", "set", "frozenset", "repr", "format", "print",
              "min", "max", "sum", "ord", "bytes", "hash", "type", "any", "all", "reversed",
              "hasattr", "getattr", "open", "sorted", "bool"}


class Transformer(ast.NodeTransformer):
    def __init__(self, wrap_dicts=True):
        self.wrap_dicts = wrap_dicts

    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def visit_FunctionDef(self, node):
        node.args = self._args(node.args)
        node.body = [self.visit(s) for s in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        for s in node.body:
            body.extend(s if isinstance(s, list) else [s])
        i = 0
        if (
            body
            and isinstance(body[0], ast.Expr)
            and isinstance(body[0].value, ast.Constant)
            and isinstance(body[0].value.value, str)
        ):
            i = 1
        body.insert(
            i,
            ast.Expr(
                ast.Call(self._n("__sx_enter__"), [ast.Constant(node.name)], [])
            ),
        )
        node.body = body
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def _args(self, args):
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        return args

    def visit_AnnAssign(self, node):
        # leave annotations alone (pydantic and dataclasses read them)
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(ast.Call(self._n("__sx_tick__"), [], [])))
        return node

    visit_While = _loop
    visit_For = _loop

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                return node
            if isinstance(v, ast.Name) and v.id in ("__sx_ns__",):
                return node
            return ast.copy_location(
                ast.Call(
                    self._n("__sx_mc__"),
                    [v, ast.Constant(f.attr)] + node.args,
                    node.keywords,
                ),
                node,
            )
        if isinstance(f, ast.Name) and f.id in NAME_CALLS:
            return ast.copy_location(
                ast.Call(self._n("__sx_c__"), [f] + node.args, node.keywords), node
            )
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if (
            isinstance(node.ctx, ast.Load)
            and isinstance(node.value, ast.Name)
            and node.value.id == "str"
        ):
            return ast.copy_location(
                ast.Call(self._n("__sx_strmeth__"), [node.value, ast.Constant(node.attr)], []),
                node,
            )
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(
                ast.Call(self._n("__sx_mod__"), [node.left, node.right], []), node
            )
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = chr(v.conversion) if v.conversion not in (-1, None) else None
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(
                    ast.Tuple([val, ast.Constant(conv), spec], ast.Load())
                )
        return ast.copy_location(
            ast.Call(self._n("__sx_fstr__"), [ast.Tuple(parts, ast.Load())], []), node
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(self._n("__sx_in__"), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            sides = [node.left, node.comparators[0]]
            if not any(isinstance(x, ast.Constant) and x.value is None for x in sides):
                c = ast.Call(self._n("__sx_is__"), sides, [])
                if isinstance(node.ops[0], ast.IsNot):
                    c = ast.UnaryOp(ast.Not(), c)
                return ast.copy_location(c, node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.wrap_dicts:
            return node
        elts = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                elts.append(ast.Tuple([v], ast.Load()))
            else:
                elts.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(
            ast.Call(self._n("__sx_mkdict__"), [ast.Tuple(elts, ast.Load())], []), node
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(ast.Call(self._n("__sx_mkdict__"), [lc], []), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(self._n("__sx_mkset__"), [ast.Tuple(node.elts, ast.Load())], []), node
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.ListComp(node.elt, node.generators)
        return ast.copy_location(ast.Call(self._n("__sx_mkset__"), [lc], []), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        return node


# ---------------------------------------------------------------------------- runtime


def sx_mkdict(pairs):
    d = SymDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def sx_mkset(elts):
    return SymSet(elts)


def _any_sym(args):
    for a in args:
        t = type(a)
        if t is SymStr:
            return True
        if t is tuple and _any_sym(a):
            return True
    return False


_STR_SEQ = {"join"}


def sx_mc(obj, name, /, *a, **k):
    t = type(obj)
    if t is str:
        if name == "join":
            seq = list(a[0]) if type(a[0]) not in (list, tuple) else a[0]
            for x in seq:
                if type(x) is SymStr:
                    return sym_join(obj, seq)
            return obj.join(seq)
        if name == "format":
            if contains_symbolic(a) or contains_symbolic(k):
                return brace_format(obj, a, k)
        elif a and _any_sym(a):
            return getattr(SymStr(tuple(map(ord, obj))), name)(*a, **k)
        if a and any(type(x) is SymInt for x in a):
            a = tuple(x.realize() if type(x) is SymInt else x for x in a)
        return getattr(obj, name)(*a, **k)
    if t is dict:
        if a and name in ("get", "pop", "setdefault") and is_sym_key(a[0]):
            if name == "get":
                return SymDict(obj).get(*a)
            return getattr(obj, name)(a[0].realize() if hasattr(a[0], "realize") else a[0], *a[1:])
        return getattr(obj, name)(*a, **k)
    if t is type and obj is str:
        return sx_strmeth(str, name)(*a, **k)
    if t is bytes and name == "decode":
        return to_symbolic(obj.decode(*a, **k))
    return getattr(obj, name)(*a, **k)


def sx_strmeth(cls, name):
    if cls is not str:
        return getattr(cls, name)
    if name in ("maketrans",):
        return getattr(str, name)

    def f(self, *a, **k):
        return sx_mc(self, name, *a, **k) if type(self) is str else getattr(self, name)(*a, **k)

    return f


def sx_c(f, /, *a, **k):
    if f is str:
        if len(a) == 1 and not k:
            v = to_text(a[0])
            return v if type(v) in (str, SymStr) else str(v)
        return str(*a, **k)
    if f is int:
        if a and type(a[0]) in (SymStr, SymInt, SymBool):
            return sym_int(*a)
        return int(*a, **k)
    if f is float:
        return sym_float(*a)
    if f is dict:
        return SymDict(*a, **k)
    if f is set:
        return SymSet(*a)
    if f is frozenset:
        return SymSet(*a) if a and contains_symbolic(a[0]) else frozenset(*a)
    if f is repr:
        return to_text(a[0], "r")
    if f is format:
        return fmt_value(a[0], None, a[1] if len(a) > 1 else "")
    if f is print:
        return None
    if f is ord:
        return sx_ord(*a)
    if f is bool:
        if a and type(a[0]) is SymBool:
            return bool(a[0])
        return bool(*a)
    if f is type:
        if len(a) == 1:
            t = type(a[0])
            if t is SymStr:
                return str
            if t is SymInt or t is CharCode:
                return int
            if t is SymBool:
                return bool
            if t is SymDict:
                return dict
            if t is SymSet:
                return set
            return t
        return type(*a, **k)
    if f is sorted or f is min or f is max:
        return f(*a, **k)
    if f is hash:
        return hash(*a)
    if f in (getattr, hasattr) and len(a) > 1 and type(a[1]) is SymStr:
        a = (a[0], a[1].realize()) + a[2:]
    return f(*a, **k)


def sx_mod(l, r):
    if type(l) is SymStr:
        return percent_format(l, r)
    if isinstance(l, str):
        if contains_symbolic(r):
            return percent_format(l, r)
        return l % r
    return l % r


def sx_fstr(parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            out.append(fmt_value(*p))
    return sym_join("", out)


def sx_is(a, b):
    """`is`, where a symbolic truth value stands for the True or False it is"""
    if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
        return bool(a) is bool(b)
    if isinstance(b, SymBool) and isinstance(a, bool):
        return a is bool(b)
    return a is b


def sx_in(x, c):
    t = type(c)
    if t is str:
        if type(x) is SymStr:
            return sbool(SymStr(tuple(map(ord, c))).contains_cond(x)) if c else x == ""
        return x in c
    if t is SymStr:
        return sbool(c.contains_cond(x))
    if t in (list, tuple):
        if type(x) in (SymStr, SymInt) or any(type(y) in (SymStr, SymInt) for y in c):
            cs = []
            for y in c:
                r = eq_cond(x, y) if y is not x else True
                if r is True and not cs:
                    return True
                cs.append(r)
            return sbool(mk_or(cs))
        return x in c
    if t is SymDict or t is SymSet:
        return x in c
    if is_sym_key(x):
        if isinstance(c, dict):
            return SymDict.__contains__(SymDict(c), x)
        if isinstance(c, (set, frozenset)):
            return x in SymSet(c)
        try:
            ks = list(c)
        except TypeError:
            return x in c
        return sx_in(x, ks)
    return x in c


def sx_isinstance(o, cls):
    t = type(o)
    if t is SymStr:
        return isinstance("", cls)
    if t is SymInt or t is CharCode:
        return isinstance(0, cls)
    if t is SymBool:
        return isinstance(True, cls)
    if t is rx.Match:
        return isinstance(o, cls) or cls is rx._re.Match
    return isinstance(o, cls)


def sx_ord(c):
    if type(c) is SymStr:
        its = c.items
        if len(its) == 1 and type(its[0]) is SymChar:
            return CharCode(its[0])
        return ord(c.realize())
    return ord(c)


def sx_chr(c):
    if type(c) is CharCode:
        return mkstr([c.it])
    if type(c) is SymInt:
        c = c.realize()
    return chr(c)


FUNCTIONS = {}
_current_module = "?"


def make_enter(modname):
    seen = FUNCTIONS.setdefault(modname, set())
    depth_limit = 0

    def sx_enter(name):
        seen.add(name)
        tick()

    return sx_enter


SHIMS = {"re": rx.ReModule}


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMS:
        if "." in name and not fromlist:
            return SHIMS[name.partition(".")[0]]
        return SHIMS[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    {
        "isinstance": sx_isinstance,
        "chr": sx_chr,
        "__import__": sx_import,
        "__sx_tick__": tick,
        "__sx_mc__": sx_mc,
        "__sx_c__": sx_c,
        "__sx_mod__": sx_mod,
        "__sx_fstr__": sx_fstr,
        "__sx_in__": sx_in,
        "__sx_is__": sx_is,
        "__sx_mkdict__": sx_mkdict,
        "__sx_mkset__": sx_mkset,
        "__sx_strmeth__": sx_strmeth,
    }
)

# data-only modules are loaded untouched (large literal tables)
RAW_SUFFIXES = ("_latex2unicode_map", "_uni2latexmap", "_uni2latexmap_xml")


def compile_source(src, path, raw=False):
    tree = ast.parse(src, path)
    if not raw:
        tree = Transformer().visit(tree)
        ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        raw = self.fullname.endswith(RAW_SUFFIXES)
        code = compile_source(src, self.path, raw)
        if not raw:
            b = dict(BUILTINS)
            b["__sx_enter__"] = make_enter(self.fullname)
            module.__dict__["__builtins__"] = b
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, package, root):
        self.package = package
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + "."):
            return None
        p = os.path.join(self.root, *fullname.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                return importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec = importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f), submodule_search_locations=[p]
            )
            return spec
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(
                fullname, f, loader=Loader(fullname, f)
            )
        return None


_installed = False


def install(repo=None):
    """make `import latex2json...` load the instrumented working tree"""
    global _installed
    if _installed:
        return
    for m in list(sys.modules):
        if m == "latex2json" or m.startswith("latex2json."):
            del sys.modules[m]
    sys.meta_path.insert(0, Finder("latex2json", repo or REPO))
    sys.meta_path.insert(0, Finder("hlib", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    from . import shims

    shims.install(SHIMS, BUILTINS)
    _installed = True


def load_file(path, name):
    """exec a harness file in instrumented mode"""
    import types

    with open(path, encoding="utf-8") as f:
        src = f.read()
    code = compile_source(src, path)
    mod = types.ModuleType(name)
    mod.__file__ = path
    b = dict(BUILTINS)
    b["__sx_enter__"] = lambda n: tick()
    mod.__dict__["__builtins__"] = b
    sys.modules[name] = mod
    exec(code, mod.__dict__)
    return mod
