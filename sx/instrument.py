"""Source-to-source instrumentation and the module loader for it.

The code objects executed are compiled from the current source files with
every call, subscript, membership test, (in)equality, formatting operation and
dict/set display routed through sx/hooks.py; nothing else changes, and line
numbers are kept.  The same loader without the transformation runs the code
natively (fresh module objects per run) to replay and cross-check paths.
"""
import ast
import builtins
import os
import re as _re
import sys
import types

from . import core, hooks
from .core import SStr, mk, plain, el_in, el_is, PH_BASE, norm_el

STDLIB = os.path.dirname(os.__file__)
STDLIB_INSTR = {"configparser", "shlex", "collections", "textwrap", "posixpath", "genericpath",
                "string", "fnmatch", "argparse"}
PREFIX = "__sx_"


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Instrumenter(ast.NodeTransformer):
    def __init__(self, fname, record=True):
        self.fname = fname
        self.cls = []
        self.qual = []
        self.record = record

    def hook(self, node, name, *args, keywords=()):
        return ast.copy_location(
            ast.Call(func=_name(name), args=list(args), keywords=list(keywords)), node)

    def mangle(self, n):
        if self.cls and n.startswith("__") and not n.endswith("__"):
            c = self.cls[-1].lstrip("_")
            if c:
                return "_" + c + n
        return n

    # ---- scopes
    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.qual.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self.stmts(node.body)
        self.cls.pop()
        self.qual.pop()
        return node

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        self.qual.append(node.name)
        body = self.stmts(node.body)
        if self.record:
            fid = "%s:%s" % (self.fname, ".".join(self.qual))
            st = ast.Expr(ast.Call(func=_name("__sx_enter__"), args=[ast.Constant(fid)],
                                   keywords=[]))
            ast.copy_location(st, node.body[0])
            k = 1 if (body and isinstance(body[0], ast.Expr) and
                      isinstance(body[0].value, ast.Constant) and
                      isinstance(body[0].value.value, str)) else 0
            body.insert(k, st)
        node.body = body
        self.qual.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _tick(self, node):
        st = ast.Expr(ast.Call(func=_name("__sx_tick__"), args=[], keywords=[]))
        ast.copy_location(st, node)
        node.body.insert(0, st)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        return self._tick(node)

    def visit_While(self, node):
        self.generic_visit(node)
        return self._tick(node)

    # ---- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in ("super", "locals", "globals", "vars", "dir") and not node.args:
                return node
            if f.id in ("exec", "eval") and len(node.args) == 1 and not node.keywords:
                node.args = node.args + [
                    ast.copy_location(ast.Call(func=_name("globals"), args=[], keywords=[]), node),
                    ast.copy_location(ast.Call(func=_name("locals"), args=[], keywords=[]), node)]
                node.args[0] = self.visit(node.args[0])
                return self.hook(node, "__sx_call__", f, *node.args)
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            return self.hook(node, "__sx_callm__", self.visit(f.value),
                             ast.copy_location(ast.Constant(self.mangle(f.attr)), f),
                             *args, keywords=kws)
        return self.hook(node, "__sx_call__", self.visit(f), *args, keywords=kws)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Slice):
                return node
            return self.hook(node, "__sx_getitem__", node.value, node.slice)
        node.value = self.hook(node.value, "__sx_wrap__", node.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return self.hook(node, "__sx_in__", l, r)
            if isinstance(op, ast.NotIn):
                return self.hook(node, "__sx_notin__", l, r)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if isinstance(l, ast.Constant) or isinstance(r, ast.Constant):
                    return node
                return self.hook(node, "__sx_eq__" if isinstance(op, ast.Eq) else "__sx_ne__",
                                 l, r)
            return node
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            # a op1 b op2 c  ->  evaluated pairwise with temporaries
            lam_args = ["__sx_t%d__" % i for i in range(len(node.ops) + 1)]
            vals = [node.left] + node.comparators
            if all(isinstance(v, (ast.Name, ast.Constant, ast.Attribute)) for v in vals):
                parts = []
                for i, o in enumerate(node.ops):
                    c = ast.copy_location(ast.Compare(left=vals[i], ops=[o],
                                                      comparators=[vals[i + 1]]), node)
                    if isinstance(o, ast.In):
                        c = self.hook(node, "__sx_in__", vals[i], vals[i + 1])
                    elif isinstance(o, ast.NotIn):
                        c = self.hook(node, "__sx_notin__", vals[i], vals[i + 1])
                    parts.append(c)
                return ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node)
            del lam_args
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.hook(node, "__sx_mod__", node.left, node.right)
        if isinstance(node.op, ast.Div):
            return self.hook(node, "__sx_div__", node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, (ast.Mod, ast.Div)) and isinstance(node.target, (ast.Name, ast.Attribute)):
            import copy
            load = copy.deepcopy(node.target)
            load.ctx = ast.Load()
            new = ast.Assign(targets=[node.target],
                             value=ast.BinOp(left=load, op=node.op, right=node.value))
            ast.copy_location(new, node)
            ast.copy_location(new.value, node)
            return self.visit(new)
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.copy_location(ast.Constant(None), v)
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(ast.copy_location(ast.Tuple(
                    elts=[self.visit(v.value), ast.copy_location(ast.Constant(v.conversion), v),
                          spec], ctx=ast.Load()), v))
        return self.hook(node, "__sx_fstr__",
                         ast.copy_location(ast.List(elts=parts, ctx=ast.Load()), node))

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        parts = []
        for k, v in zip(node.keys, node.values):
            parts.append(ast.copy_location(
                ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()), v))
        return self.hook(node, "__sx_dictd__",
                         ast.copy_location(ast.List(elts=parts, ctx=ast.Load()), node))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.copy_location(
            ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node),
            generators=node.generators)
        return self.hook(node, "__sx_dictc__", ast.copy_location(g, node))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.hook(node, "__sx_set__", ast.copy_location(
            ast.GeneratorExp(elt=node.elt, generators=node.generators), node))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.hook(node, "__sx_set__", ast.copy_location(
            ast.List(elts=node.elts, ctx=ast.Load()), node))


# ---------------------------------------------------------------- loader
_CODE = {}
RECORD_ROOTS = ("/repo/",)
_FOUND = {}


def get_code(path, instr):
    key = (path, instr)
    c = _CODE.get(key)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        tree = ast.parse(src, path)
        if instr:
            rel = path
            rec = path.startswith(RECORD_ROOTS)
            if rec:
                rel = path[len("/repo/"):]
            tree = Instrumenter(rel, True).visit(tree)
            ast.fix_missing_locations(tree)
        c = _CODE[key] = compile(tree, path, "exec", dont_inherit=True)
    return c


class Loader:
    """A private module table for code under `paths` (and, when instrumenting,
    a few pure-Python standard library modules)."""

    def __init__(self, paths, instr):
        self.paths = list(paths)
        self.instr = instr
        self.mods = {}
        if instr:
            self.builtins = hooks.SXB
        else:
            self.builtins = dict(vars(builtins))
        self.extra = {}

    def find(self, name):
        key = (tuple(self.paths), name)
        if key not in _FOUND:
            _FOUND[key] = self._find(name)
        return _FOUND[key]

    def _find(self, name):
        rel = name.replace(".", os.sep)
        for p in self.paths:
            d = os.path.join(p, rel)
            if os.path.isfile(os.path.join(d, "__init__.py")):
                return os.path.join(d, "__init__.py"), True
            if os.path.isfile(d + ".py"):
                return d + ".py", False
            if os.path.isdir(d) and "." not in name and self.namespace_ok(d):
                return d, None
        return None

    def namespace_ok(self, d):
        return any(x.endswith(".py") for x in os.listdir(d))

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        m = self.extra.get(name)
        if m is not None:
            self.mods[name] = m
            return m
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            pm = self.load(parent)
            if pm is None:
                return None
        if self.instr and name in STDLIB_INSTR:
            return load_stdlib(name)
        fnd = self.find(name)
        if fnd is None:
            return None
        path, pkg = fnd
        m = types.ModuleType(name)
        if pkg is None:
            m.__path__ = [path]
            m.__package__ = name
            self.mods[name] = m
            return m
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins_for()
        self.mods[name] = m
        if self.instr:
            hooks.INSTR_NAMES.add(name)
        try:
            exec(get_code(path, self.instr), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if "." in name:
            setattr(pm, leaf, m)
        return m

    def builtins_for(self):
        return self.builtins

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals.get("__name__", "").rpartition(".")[0]
            if not pkg:
                raise ImportError("attempted relative import with no known parent package")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + "." + name if name else pkg
        top = name.partition(".")[0]
        known = top in self.mods or top in self.extra or \
            (self.instr and top in STDLIB_INSTR) or self.find(top) is not None
        if not known:
            if level:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            return builtins.__import__(name, None, None, fromlist, 0)
        if self.instr and name in STDLIB_INSTR:
            return load_stdlib(name)
        if self.instr and top in STDLIB_INSTR:
            return builtins.__import__(name, None, None, fromlist, 0)
        m = self.load(name)
        if m is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if not fromlist:
            return self.load(top)
        if hasattr(m, "__path__"):
            for x in fromlist:
                if x == "*":
                    continue
                if not hasattr(m, x):
                    self.load(name + "." + x)
        return m


_STD = {}


def load_stdlib(name):
    m = _STD.get(name)
    if m is not None:
        return m
    path = os.path.join(STDLIB, name + ".py")
    if not os.path.isfile(path):
        path = os.path.join(STDLIB, name, "__init__.py")
    real = __import__(name)
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = ""
    if hasattr(real, "__path__"):
        m.__path__ = real.__path__
        m.__package__ = name
    b = hooks.SXB
    m.__dict__["__builtins__"] = b
    _STD[name] = m
    hooks.INSTR_NAMES.add(name)
    old = b.get("__import__")
    b["__import__"] = _std_import
    g = core.CTX
    core.set_ctx(None)
    try:
        exec(get_code(path, True), m.__dict__)
    finally:
        core.set_ctx(g)
        b["__import__"] = old
    for n, f in vars(real).items():
        if isinstance(f, types.FunctionType) and f.__module__ == name:
            g = m.__dict__.get(n)
            if isinstance(g, types.FunctionType):
                hooks.STDLIB_MAP[id(f)] = g
    return m


def _std_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in STDLIB_INSTR:
        return load_stdlib(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


# ---------------------------------------------------------------- exec / eval of text
_EXEC_CACHE = {}
_LIT_SPECIAL = "\"'\\\n\r{}\x00\x0c"


def _prepare(src):
    """(text with placeholders, elements) for source text with symbolic parts."""
    els = []
    text = []
    for e in src.els:
        e = norm_el(e)
        if type(e) is int:
            text.append(chr(e))
            continue
        if el_in(e, _LIT_SPECIAL):
            core.CTX.pin(e, "")
            text.append(chr(e.conc))
            continue
        t = "".join(text)
        n = len(t) - len(t.rstrip("\\"))
        if n % 2 or _re.search(r"(?<!\\)(?:\\\\)*\\[0-7]{1,2}$", t):
            core.CTX.pin(e, "source-escape")
            text.append(chr(e.conc))
            continue
        text.append(chr(PH_BASE + len(els)))
        els.append(e)
    return "".join(text), els


class _Holes(ast.NodeTransformer):
    def __init__(self, els):
        self.els = els
        self.bad = False

    def visit_Constant(self, node):
        if isinstance(node.value, str) and any(ord(c) >= PH_BASE for c in node.value):
            k = []
            for c in node.value:
                o = ord(c)
                k.append(self.els[o - PH_BASE] if o >= PH_BASE else o)
            nm = "__sx_lit%d__" % len(hooks.SXB.setdefault("__sx_lits__", []))
            hooks.SXB["__sx_lits__"].append(mk(k))
            return ast.copy_location(ast.Subscript(
                value=_name("__sx_lits__"),
                slice=ast.Constant(len(hooks.SXB["__sx_lits__"]) - 1), ctx=ast.Load()), node)
        if isinstance(node.value, bytes) and any(b > 127 for b in node.value):
            self.bad = True
        return node


def _compile(src, mode):
    if isinstance(src, types.CodeType):
        return src
    if type(src) is SStr:
        text, els = _prepare(src)
        if els:
            try:
                tree = ast.parse(text, "<string>", mode)
                h = _Holes(els)
                tree = h.visit(tree)
                if not h.bad:
                    tree = Instrumenter("<string>").visit(tree)
                    ast.fix_missing_locations(tree)
                    return compile(tree, "<string>", mode, dont_inherit=True)
            except SyntaxError:
                pass
            core.CTX.pin_value(src, "source-syntax")
        src = plain(src)
    key = (src, mode)
    c = _EXEC_CACHE.get(key)
    if c is None:
        tree = ast.parse(src, "<string>", mode)
        tree = Instrumenter("<string>").visit(tree)
        ast.fix_missing_locations(tree)
        if len(_EXEC_CACHE) > 2000:
            _EXEC_CACHE.clear()
        c = _EXEC_CACHE[key] = compile(tree, "<string>", mode, dont_inherit=True)
    return c


def exec_source(src, g, l):
    if g is None:
        g = {}
    code = _compile(src, "exec")
    if g.get("__builtins__") is not hooks.SXB:
        g["__builtins__"] = hooks.SXB
    exec(code, g, g if l is None else l)


def eval_source(src, g, l):
    if g is None:
        g = {}
    if isinstance(src, str):
        src = src.lstrip(" \t")
    code = _compile(src, "eval")
    if g.get("__builtins__") is not hooks.SXB:
        g["__builtins__"] = hooks.SXB
    return eval(code, g, g if l is None else l)
