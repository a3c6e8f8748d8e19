"""Runs the current source of /repo/src (and the harnesses) over symbolic scalars.

The source is parsed, float literals become exact numbers, `/` becomes exact division,
every function entry is counted, and the module is executed with the environment of
shims.py.  Nothing else of the code is changed."""
import ast, os, sys, types, builtins, operator
from fractions import Fraction
import numpy as np
from . import expr as X
from . import sym as S
from . import npshim as N
from . import shims
from .expr import Expr, DomainError
from .sym import Sym, SymBool

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")

_fl = {}


def _vF(t):
    r = _fl.get(t)
    if r is None:
        v = float(t)
        if v != v or v in (float("inf"), float("-inf")):
            r = Sym.lift(v)
        else:
            r = Sym(Expr.const(Fraction(t)))
        _fl[t] = r
    return r


def _vC(t):
    return Sym(Expr.const(Fraction(t)) * X.I)


def _isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, np.ndarray)


def _vdiv(a, b):
    if _isint(a) and _isint(b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Sym(Expr.const(Fraction(int(a), int(b))))
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float):
            a = Sym.lift(a)
        if isinstance(b, float):
            b = Sym.lift(b)
    return a / b


def _vpow(a, b):
    if _isint(a) and _isint(b) and b < 0:
        return Sym.lift(a) ** int(b)
    if _isint(a) and isinstance(b, Sym):
        return Sym.lift(a) ** b
    return a ** b


def _vmod(a, b):
    if isinstance(a, (str, bytes)):
        try:
            return a % b
        except (DomainError, TypeError):
            t = b if isinstance(b, tuple) else (b,)
            out = []
            import re
            specs = re.findall(r"%[-+ #0]*[\d*]*(?:\.\d+)?[a-zA-Z%]", a)
            i = 0

            def sub(m):
                nonlocal i
                s = m.group(0)
                if s == "%%":
                    return "%"
                v = t[i]
                i += 1
                if isinstance(v, (Sym,)) and s[-1] in "feEgGd" and not v.is_const():
                    if S.CTX is not None and not S.CTX.quiet:
                        return S.CTX.format_sym(v, s[1:])
                    return str(v)
                if isinstance(v, N.SArr):
                    return repr(v)
                return s % v
            return re.sub(r"%[-+ #0]*[\d*]*(?:\.\d+)?[a-zA-Z%]", sub, a)
    return a % b


def _vprint(f):
    ctx = S.CTX
    if ctx is None:
        return
    q = ctx.quiet
    ctx.quiet = True
    try:
        f()
    except (DomainError,):
        pass
    finally:
        ctx.quiet = q


FUNC_COUNT = {}


def _vcount(name):
    FUNC_COUNT[name] = FUNC_COUNT.get(name, 0) + 1


class Tr(ast.NodeTransformer):
    def __init__(self, modname, count):
        self.mod = modname
        self.stack = []
        self.count = count

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(ast.Call(ast.Name("_vF", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        if isinstance(n.value, complex):
            return ast.copy_location(ast.Call(ast.Name("_vC", ast.Load()), [ast.Constant(repr(n.value.imag))], []), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: "_vdiv", ast.Pow: "_vpow", ast.Mod: "_vmod"}.get(type(n.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)) and isinstance(n.target, ast.Name):
            f = "_vidiv" if isinstance(n.op, ast.Div) else "_vipow"
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(f, ast.Load()),
                                     [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "print":
            args = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
            lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Tuple(args, ast.Load()))
            return ast.copy_location(ast.Call(ast.Name("_vprint", ast.Load()), [lam], []), n)
        if isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(ast.Call(ast.Name("_vtype", ast.Load()), n.args, []), n)
        return n

    def _func(self, n):
        self.stack.append(n.name)
        q = ".".join(self.stack)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        n.body = [self.visit(b) for b in n.body]
        n.body = [x for b in n.body for x in (b if isinstance(b, list) else [b])]
        self.stack.pop()
        if self.count:
            call = ast.Expr(ast.Call(ast.Name("_vcount", ast.Load()), [ast.Constant(self.mod + ":" + q)], []))
            ast.copy_location(call, n.body[0])
            i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
            n.body.insert(i, call)
        return n

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n


def _vidiv(a, b):
    if isinstance(a, SArrT):
        a /= b
        return a
    return _vdiv(a, b)


def _vipow(a, b):
    if isinstance(a, SArrT):
        a **= b
        return a
    return _vpow(a, b)


SArrT = N.SArr


def _vtype(x):
    """type(x) where int, float and complex are the stand-ins the code sees under these names"""
    t = type(x)
    if t is int:
        return N.PyInt
    if t is float:
        return N.PyFloat
    if t is complex:
        return N.PyComplex
    if t is Sym:
        return N.PyComplex if not x.e.is_real() else N.PyFloat
    return t


def _builtins(loader):
    b = dict(vars(builtins))
    b["__import__"] = loader.importer
    b["float"], b["int"], b["complex"] = N.PyFloat, N.PyInt, N.PyComplex
    b["print"] = lambda *a, **k: None
    b["round"] = _round
    b["abs"] = _abs
    b["pow"] = lambda a, b_, *m: pow(a, b_, *m) if m else _vpow(a, b_)
    b["open"] = loader.open
    for f in (_vF, _vC, _vdiv, _vpow, _vmod, _vprint, _vcount, _vidiv, _vipow, _vtype):
        b[f.__name__] = f
    return b


def _round(x, nd=None):
    if isinstance(x, np.ndarray):
        return N.round_(x, nd or 0) if nd is not None or x.ndim else S.round_int(Sym.lift(x.item()))
    return round(x) if nd is None else round(x, nd)


def _abs(x):
    if isinstance(x, np.ndarray):
        return N.NP.absolute(x)
    return abs(x)


class Loader:
    def __init__(self):
        self.code = {}
        self.mods = {}
        self.config = {}
        self.files = {}
        self.real_ok = {"warnings", "os", "gc", "copy", "time", "sys", "types", "functools", "itertools", "collections", "operator",
                        "re", "jsonpickle", "string", "random", "unittest", "datetime", "contextlib", "abc", "enum", "typing", "dataclasses",
                        "inspect", "numbers", "textwrap", "tempfile", "io", "json", "os.path", "fractions", "weakref", "hashlib", "pickle",
                        "traceback", "__future__", "threading", "pathlib", "glob", "struct", "bisect", "heapq", "shutil", "decimal"}
        self.source_hash = {}

    def fresh(self, config=None):
        self.config = config or {}
        self.mods = {}
        self.files = {}
        self.env = shims.build(self.config)
        self.builtins = _builtins(self)

    def reconfigure(self, **cfg):
        """change the environment (before anything of the package was imported)"""
        self.config.update(cfg)
        if "pyfftw" in cfg and not cfg["pyfftw"]:
            self.env["pyfftw"] = None

    def open(self, name, *a, **k):
        if str(name) in self.files:
            import io
            return io.StringIO(self.files[str(name)])
        mode = a[0] if a else k.get("mode", "r")
        if "w" in mode or "a" in mode:
            import io
            return io.StringIO()
        return builtins.open(name, *a, **k)

    # ---- import machinery
    def _path(self, name):
        p = os.path.join(REPO_SRC, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def compile(self, path, name, count=True):
        c = self.code.get(path)
        if c is None:
            with builtins.open(path, encoding="utf-8") as f:
                src = f.read()
            import hashlib
            self.source_hash[path] = hashlib.sha256(src.encode()).hexdigest()[:16]
            tree = ast.parse(src, path)
            tree = Tr(name, count).visit(tree)
            ast.fix_missing_locations(tree)
            c = compile(tree, path, "exec", dont_inherit=True)
            self.code[path] = c
        return c

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.env:
            m = self.env[name]
            if m is None:
                raise ImportError("No module named '%s'" % name)
            return m
        top = name.split(".")[0]
        if top == "pynlo" or top in ("examples", "validation"):
            par, _, tail = name.rpartition(".")
            if par:
                self.load(par)
                if name in self.mods:
                    return self.mods[name]
            path, pkg = self._path(name)
            if path is None:
                raise ImportError("No module named '%s'" % name)
            m = types.ModuleType(name)
            m.__file__ = path
            m.__package__ = name if pkg else par
            if pkg:
                m.__path__ = [os.path.dirname(path)]
            m.__dict__["__builtins__"] = self.builtins
            self.mods[name] = m
            try:
                exec(self.compile(path, name), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
            if par:
                setattr(self.mods[par], tail, m)
            return m
        if top == "props":
            here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")
            if name == "props":
                m = types.ModuleType("props")
                m.__path__ = [here]
            else:
                m = self.harness(os.path.join(here, name.split(".")[1] + ".py"), name)
            self.mods[name] = m
            return m
        if top in self.real_ok:
            return __import__(name, fromlist=["x"])
        raise ImportError("No module named '%s'" % name)

    get = load

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ImportError:
                        pass
            return m
        return self.load(name.split(".")[0])

    def harness(self, path, name):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = dict(self.builtins, __import__=self.importer)
        exec(self.compile(path, name, count=False), m.__dict__)
        return m


class PlainLoader:
    """the same sources, unmodified, over real numpy (fresh modules for every run)"""
    def __init__(self):
        self.code = {}
        self.mods = {}
        self.hide = set()

    def fresh(self):
        for n in [n for n in sys.modules if n == "pynlo" or n.startswith("pynlo.")]:
            del sys.modules[n]
        for n in self.hide:
            if n in self._saved:
                sys.modules[n] = self._saved[n]
        self.hide = set()
        self._saved = getattr(self, "_saved", {})

    _saved = {}

    def reconfigure(self, **cfg):
        if cfg.get("pyfftw") is False:
            self._saved.setdefault("pyfftw", sys.modules.get("pyfftw") or __import__("pyfftw"))
            sys.modules["pyfftw"] = None
            self.hide.add("pyfftw")

    def get(self, name):
        import importlib
        if REPO_SRC not in sys.path:
            sys.path.insert(0, REPO_SRC)
        return importlib.import_module(name)
