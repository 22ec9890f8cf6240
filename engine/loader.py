"""Loads the repository's current source for symbolic execution.

Every module of `dmpbbo` (and every harness) is parsed from disk on every run; float literals become
exact rationals, true division of integers stays exact, and the module sees the numpy / math stand-ins
and builtins of engine.npshim.  Nothing else of the program text is changed."""
import ast
import builtins
import operator
import os
import sys
import types
from unittest.mock import MagicMock

import numpy as np

from engine import npshim
from engine.npshim import shim, mshim, sarr
from engine.sym import S, EngineLimit

REPO = os.environ.get("VERIF_REPO", "/repo")


class Tx(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(
                ast.Call(ast.Name("__flit__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: "__div__", ast.Pow: "__pow__"}.get(type(n.op))
        if f:
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign(
                [n.target], ast.Call(ast.Name("__idiv__", ast.Load()),
                                     [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_MatchValue(self, n):
        return n


def _flit(s):
    v = float(s)
    return S.const(v) if v == v and abs(v) != float("inf") else v


def _isint(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, S)


def _div(a, b):
    if _isint(a) and _isint(b):
        if b == 0:
            if isinstance(a, np.integer) or isinstance(b, np.integer):
                return S.poison()
            raise ZeroDivisionError("division by zero")
        return S.const(int(a)) / S.const(int(b))
    if isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        a = sarr(a)
    elif _isint(a) and isinstance(b, np.ndarray) and b.dtype.kind in "iub":
        a = S.const(int(a))
        b = sarr(b)
    if isinstance(a, S) and _isint(b) and b == 0:
        raise ZeroDivisionError("float division by zero") if a.op == "c" else EngineLimit("x/0")
    return operator.truediv(a, b)


def _idiv(a, b):
    if isinstance(a, np.ndarray):
        return operator.itruediv(a, b)
    return _div(a, b)


def _pow(a, b):
    if _isint(a) and _isint(b) and b < 0:
        return S.const(int(a)) ** int(b)
    return operator.pow(a, b)


class JsonPickleStub(types.ModuleType):
    """jsonpickle is assumed to reproduce the object graph it is given"""

    def __init__(self):
        super().__init__("jsonpickle")
        self.store = {}
        self.handlers = MagicMock()

    def encode(self, obj, *a, **k):
        import copy
        key = f'{{"jsonpickle-token": {len(self.store)}}}'
        self.store[key] = copy.deepcopy(obj)
        return key

    def decode(self, s, *a, **k):
        import copy
        return copy.deepcopy(self.store[s.strip()])

    dumps = encode
    loads = decode

    def set_preferred_backend(self, *a, **k):
        pass

    def set_encoder_options(self, *a, **k):
        pass


class JsonStub(types.ModuleType):
    """the standard json module; symbolic numbers are written as tokens (strings), see SymWorld.load_json"""

    def __init__(self):
        super().__init__("json")
        import json
        self.__dict__.update({k: v for k, v in vars(json).items() if not k.startswith("__")})
        self.real = json
        self.dumps = self._dumps
        self.dump = lambda obj, f, **k: f.write(self._dumps(obj, **k))
        self.tokens = []

    def _dumps(self, obj, cls=None, default=None, **k):
        import json
        stub = self

        class Enc(cls or json.JSONEncoder):
            def default(self, o):
                if isinstance(o, S):
                    c = o.a[0] if o.op == "c" else None
                    if c is not None and float(c) == c:
                        return float(c)
                    stub.tokens.append(o)
                    return f"@S:P{len(stub.tokens) - 1}"
                return default(o) if default is not None else super().default(o)
        return json.dumps(obj, cls=Enc, **k)


CODE = {}  # parsed once per process (every run of a check is a new process)


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.jp = JsonPickleStub()
        self.json = JsonStub()
        self.files = set()
        b = dict(vars(builtins))
        b.update(isinstance=npshim.sym_isinstance, float=npshim.sym_float, int=npshim.sym_int,
                 print=lambda *a, **k: None, __import__=self.imp, complex=npshim.sym_complex,
                 input=lambda *a: "")
        b.update(__flit__=_flit, __div__=_div, __idiv__=_idiv, __pow__=_pow)
        self.builtins = b
        self.stubs = {}

    # ------------------------------------------------------------------
    def roots(self):
        return {"dmpbbo": self.repo, "demos": self.repo, "harness": os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or (globals or {}).get("__name__", "")
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        top = name.split(".")[0]
        if top in self.roots():
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and f != "*":
                        try:
                            self.load(name + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[top]
        if top == "numpy":
            if not fromlist:
                return shim
            m = shim
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        if name == "math":
            return mshim
        if top == "jsonpickle":
            return self.jp
        if name == "json":
            return self.json
        if top in ("matplotlib", "mpl_toolkits", "pylab", "scipy", "seaborn"):
            st = self.stubs.get(name)
            if st is None:
                st = self.stubs[name] = MagicMock(name=name)
            return st
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parts = name.split(".")
        parent = None
        if len(parts) > 1:
            parent = self.load(".".join(parts[:-1]))
        base = os.path.join(self.roots()[parts[0]], *parts)
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            pkg = True
        else:
            f = base + ".py"
            pkg = False
        if not os.path.exists(f) and not pkg:
            raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if pkg else ".".join(parts[:-1])
        if pkg:
            m.__path__ = [base]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if os.path.exists(f):
            self.files.add(f)
            code = CODE.get(f)
            if code is None:
                with open(f, encoding="utf-8") as fh:
                    src = fh.read()
                tree = ast.fix_missing_locations(Tx().visit(ast.parse(src, f)))
                code = CODE[f] = compile(tree, f, "exec")
            try:
                exec(code, m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        if parent is not None:
            setattr(parent, parts[-1], m)
        return m
