"""Symbolic reals, path exploration and the z3 back end."""
import sys
import time
import random
import itertools
from fractions import Fraction as F

import math
import mpmath
import z3

from engine.nf import Alg, NF, TooBig, _norm_exp

mpmath.mp.dps = 40


class PathEnd(BaseException):
    """the current path is abandoned (infeasible assumption)"""


class Poison(Exception):
    pass


class EngineLimit(Exception):
    """the symbolic engine cannot follow the code here (not a statement about the code)"""


ENG = None  # current engine


def eng():
    return ENG


# ---------------------------------------------------------------------------------------------
def to_frac(x):
    if isinstance(x, F):
        return x
    if isinstance(x, bool):
        return F(int(x))
    if isinstance(x, int):
        return F(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        return F(repr(x))
    t = type(x).__module__
    if t == "numpy":
        return to_frac(x.item())
    raise TypeError(f"cannot use {type(x)} as a number")


class S:
    """A symbolic real: a hash-consed expression node."""

    __slots__ = ("op", "a", "_nf", "_fp", "id")

    # -- construction
    @staticmethod
    def mk(op, *a):
        e = ENG
        k = (op,) + tuple(id(x) if isinstance(x, S) else x for x in a)
        n = e.cons.get(k)
        if n is None:
            n = object.__new__(S)
            n.op, n.a, n._nf, n._fp = op, a, None, None
            e.cons[k] = n
        return n

    @staticmethod
    def const(c):
        if isinstance(c, S):
            return c
        c = to_frac(c)
        if c is None:
            return S.poison()
        return S.mk("c", c)

    @staticmethod
    def poison():
        return S.mk("poison")

    @staticmethod
    def lift(x):
        if isinstance(x, S):
            return x
        if isinstance(x, SB):
            return S.const(1 if bool(x) else 0)
        try:
            return S.const(x)
        except TypeError:
            return None

    def is_const(self):
        return self.op == "c"

    # -- arithmetic
    def _bin(self, o, op, swap=False):
        if type(o).__module__ == "numpy" and getattr(o, "ndim", 0) != 0:
            return NotImplemented
        if hasattr(o, "ndim") and o.ndim == 0 and hasattr(o, "item"):
            o = o.item()
        o = S.lift(o)
        if o is None:
            return NotImplemented
        return _arith(op, o, self) if swap else _arith(op, self, o)

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o): return self._bin(o, "*")
    def __rmul__(self, o): return self._bin(o, "*", True)
    def __truediv__(self, o): return self._bin(o, "/")
    def __rtruediv__(self, o): return self._bin(o, "/", True)
    def __pow__(self, o, m=None): return self._bin(o, "**")
    def __rpow__(self, o): return self._bin(o, "**", True)
    def __neg__(self): return _arith("*", S.const(-1), self)
    def __pos__(self): return self

    def __floordiv__(self, o):
        o = S.lift(o)
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return (S.lift(o) / self).floor()

    def __mod__(self, o):
        o = S.lift(o)
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        return S.lift(o) % self

    def __abs__(self):
        if self.op == "poison":
            return self
        return self if self >= 0 else -self

    # -- numpy object-ufunc hooks (np.exp(obj) calls obj.exp())
    def exp(self):
        if self.op == "poison":
            return self
        if self.is_const() and self.a[0] == 0:
            return S.const(1)
        return S.mk("exp", self)

    def log(self):
        if self.op == "poison":
            return self
        if self.is_const():
            if self.a[0] <= 0:
                return S.poison()
            if self.a[0] == 1:
                return S.const(0)
        elif not ENG.sure_pos(self):
            return S.poison()
        return S.mk("log", self)

    def sqrt(self):
        if self.op == "poison":
            return self
        if self.is_const():
            if self.a[0] < 0:
                return S.poison()
        elif not ENG.sure_nonneg(self):
            return S.poison()
        return S.mk("powq", self, F(1, 2))

    def square(self): return self * self
    def log10(self): return self.log() / S.const(10).log()
    def log2(self): return self.log() / S.const(2).log()
    def log1p(self): return (self + 1).log()
    def expm1(self): return self.exp() - 1
    def exp2(self): return S.const(2) ** self
    def reciprocal(self): return 1 / self
    def absolute(self): return abs(self)
    def fabs(self): return abs(self)
    def conjugate(self): return self
    def negative(self): return -self
    def sin(self): return S.mk("fn", "sin", self)
    def cos(self): return S.mk("fn", "cos", self)
    def tanh(self):
        e = (2 * self).exp()
        return (e - 1) / (e + 1)

    def floor(self):
        return S.const(ENG.concretize_floor(self))

    def ceil(self):
        return S.const(-ENG.concretize_floor(-self))

    def rint(self):
        return S.const(ENG.concretize_round(self))

    def trunc(self):
        return self.floor() if self >= 0 else self.ceil()

    def __floor__(self): return ENG.concretize_floor(self)
    def __ceil__(self): return -ENG.concretize_floor(-self)
    def __trunc__(self): return int(self)

    def __round__(self, nd=None):
        if nd is None:
            return ENG.concretize_round(self)
        s = 10 ** nd
        return S.const(ENG.concretize_round(self * s)) / s

    def __int__(self):
        if self.op == "poison":
            raise ValueError("cannot convert float NaN to integer")
        return ENG.concretize_floor(self) if self >= 0 else -ENG.concretize_floor(-self)

    def __index__(self):
        # floats are not indices; only exact integer constants coming from sizes are tolerated
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __float__(self):
        c = ENG.ground_value(self)
        if c is None:
            raise EngineLimit("float() of a symbolic value")
        return float(c)

    def is_integer(self):
        return self.op == "c" and self.a[0].denominator == 1

    def __complex__(self):
        return complex(float(self))

    shape, size, ndim = (), 1, 0

    def _asarr(self):
        from engine.npshim import sarr
        return sarr(self)

    def flatten(self, *a): return self._asarr().reshape(-1)
    def ravel(self, *a): return self._asarr().reshape(-1)
    def reshape(self, *a): return self._asarr().reshape(*a)
    def item(self): return self
    def copy(self): return self
    def tolist(self): return self

    @property
    def real(self): return self

    @property
    def imag(self): return S.const(0)

    @property
    def T(self): return self

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # -- comparisons
    def __lt__(self, o): return _cmp("<", self, o)
    def __le__(self, o): return _cmp("<=", self, o)
    def __gt__(self, o): return _cmp(">", self, o)
    def __ge__(self, o): return _cmp(">=", self, o)
    def __eq__(self, o): return _cmp("==", self, o)
    def __ne__(self, o): return _cmp("!=", self, o)

    def __hash__(self):
        if self.op == "c":
            return hash(self.a[0])
        return id(self)

    def __bool__(self):
        if self.op == "poison":
            return True  # bool(nan)
        return bool(_cmp("!=", self, 0))

    def __repr__(self):
        return show(self)

    def __str__(self):
        return show(self)

    def __format__(self, spec):
        if self.op == "c":
            return format(float(self.a[0]), spec)
        return show(self)


def show(s, depth=4):
    if s.op == "c":
        return str(s.a[0])
    if s.op == "v":
        return s.a[0]
    if depth == 0:
        return "…"
    return s.op + "(" + ",".join(show(x, depth - 1) if isinstance(x, S) else str(x) for x in s.a) + ")"


def _arith(op, x, y):
    if x.op == "poison" or y.op == "poison":
        return S.poison()
    cx, cy = x.op == "c", y.op == "c"
    if op == "+":
        if cx and cy:
            return S.const(x.a[0] + y.a[0])
        if cx and x.a[0] == 0:
            return y
        if cy and y.a[0] == 0:
            return x
        return S.mk("+", x, y)
    if op == "-":
        if cx and cy:
            return S.const(x.a[0] - y.a[0])
        if cy and y.a[0] == 0:
            return x
        if x is y:
            return S.const(0)
        return S.mk("-", x, y)
    if op == "*":
        if cx and cy:
            return S.const(x.a[0] * y.a[0])
        if cx:
            if x.a[0] == 0:
                return x
            if x.a[0] == 1:
                return y
        if cy:
            if y.a[0] == 0:
                return y
            if y.a[0] == 1:
                return x
        return S.mk("*", x, y)
    if op == "/":
        if cy:
            if y.a[0] == 0:
                return S.poison()
            if cx:
                return S.const(x.a[0] / y.a[0])
            if y.a[0] == 1:
                return x
        else:
            if not ENG.sure_nonzero(y):
                return S.poison()
            if cx and x.a[0] == 0:
                return x
        return S.mk("/", x, y)
    if op == "**":
        if cy:
            e = y.a[0]
            if e == 0:
                return S.const(1)
            if e == 1:
                return x
            if e.denominator == 1:
                n = int(e)
                if abs(n) > 64:
                    raise EngineLimit("huge exponent")
                if cx:
                    return S.const(x.a[0] ** n) if x.a[0] != 0 or n > 0 else S.poison()
                if n < 0:
                    return _arith("/", S.const(1), _arith("**", x, S.const(-n)))
                return S.mk("powi", x, n)
            if cx:
                if x.a[0] < 0:
                    return S.poison()
                if x.a[0] == 0:
                    return S.const(0) if e > 0 else S.poison()
            elif e > 0:
                if not ENG.sure_nonneg(x):
                    return S.poison()
            elif not ENG.sure_pos(x):
                return S.poison()
            return S.mk("powq", x, e)
        # symbolic exponent
        if cx and x.a[0] == 1:
            return x
        if cx and x.a[0] <= 0:
            raise EngineLimit("non-positive base with symbolic exponent")
        if not cx and not ENG.sure_pos(x):
            return S.poison()
        return S.mk("exp", S.mk("*", y, S.mk("log", x)))
    raise AssertionError(op)


class SB:
    """A symbolic truth value (formula over comparisons)."""

    __slots__ = ("op", "a")

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def __bool__(self):
        return ENG.decide(self)

    def __and__(self, o): return SB("and", self, sb(o))
    __rand__ = __and__

    def __or__(self, o): return SB("or", self, sb(o))
    __ror__ = __or__

    def __invert__(self): return SB("not", self)
    def logical_not(self): return SB("not", self)
    def __eq__(self, o):
        o = sb(o)
        return (self & o) | (~self & ~o)

    def __hash__(self): return id(self)
    def item(self): return self

    def __repr__(self):
        return f"({self.op} {' '.join(map(repr, self.a))})"


def sb(o):
    if isinstance(o, SB):
        return o
    return SB("true") if bool(o) else SB("false")


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def _cmp(op, x, o):
    if hasattr(o, "ndim") and not isinstance(o, S):
        if o.ndim != 0:
            return NotImplemented
        o = o.item()
    if o is None or isinstance(o, (str, list, tuple, dict)):
        return NotImplemented
    if isinstance(o, float) and (o in (float("inf"), float("-inf"))):
        pos = o > 0
        return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
    y = S.lift(o)
    if y is None:
        return NotImplemented
    if x.op == "poison" or y.op == "poison":
        return op == "!="
    if x is y:
        return op in ("<=", ">=", "==")
    if x.op == "c" and y.op == "c":
        a, b = x.a[0], y.a[0]
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    return SB(op, x, y)


# ---------------------------------------------------------------------------------------------
class Engine:
    """Explores all paths of a harness; one instance per harness case."""

    def __init__(self, rlimit=300000, max_paths=4000, deadline=None):
        self.rlimit = rlimit
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = {"paths": 0, "decisions": 0, "queries": 0, "solver_s": 0.0, "infeasible": 0,
                      "unknown_feas": 0, "forced": 0, "atoms": 0}
        self.side_assumptions = set()

    # ------------------------------------------------------------ per-path state
    def reset_path(self, prefix):
        global ENG
        ENG = self
        self.prefix = prefix
        self.trace = []
        self.cons = {}
        self.alg = Alg(self._pos_oracle)
        self.pc = []  # list of SB (or callables)
        self.vars = {}  # name -> (S, kind, lo, hi)
        self.zctx = ZCtx(self)
        self.rng = random.Random(12345)
        self.sample_env = {"$uf": default_uf}
        self._signcache = {}
        self._in_oracle = 0
        self.poisoned = False
        self.uf_apps = []

    def var(self, name, lo=None, hi=None, strict_lo=False, strict_hi=False, nonzero=False):
        if name in self.vars:
            return self.vars[name][0]
        s = S.mk("v", name)
        pos = lo is not None and (lo > 0 or (lo == 0 and strict_lo))
        self.vars[name] = (s, lo, hi, pos)
        s._nf = self.alg.var(name, pos)
        if self.sample_env is not None:
            a = float(lo) if lo is not None else (float(hi) - 3 if hi is not None else -2.0)
            b = float(hi) if hi is not None else a + 4
            self.sample_env[name] = mpmath.mpf(a + (b - a) * (0.1 + 0.8 * self.rng.random()))
        if lo is not None:
            self.assume_raw(SB(">" if strict_lo else ">=", s, S.const(lo)))
        if hi is not None:
            self.assume_raw(SB("<" if strict_hi else "<=", s, S.const(hi)))
        if nonzero:
            self.assume_raw(SB("!=", s, S.const(0)))
        return s

    def uf(self, name, args):
        if any(a.op == "poison" for a in args):
            return S.poison()
        s = S.mk("uf", name, *args)
        return s

    # ------------------------------------------------------------ normal forms
    def nf(self, s):
        """normal form of a node (iterative to spare the python stack)"""
        if s._nf is not None:
            return s._nf
        al = self.alg
        stack = [s]
        while stack:
            n = stack[-1]
            if n._nf is not None:
                stack.pop()
                continue
            todo = [x for x in n.a if isinstance(x, S) and x._nf is None]
            if todo:
                stack.extend(todo)
                continue
            op = n.op
            if op == "c":
                r = al.const_nf(n.a[0])
            elif op == "+":
                r = al.add(n.a[0]._nf, n.a[1]._nf)
            elif op == "-":
                r = al.sub(n.a[0]._nf, n.a[1]._nf)
            elif op == "*":
                r = al.mul(n.a[0]._nf, n.a[1]._nf)
            elif op == "/":
                if n.a[1]._nf.is_zero():
                    raise Poison()
                r = al.div(n.a[0]._nf, n.a[1]._nf)
            elif op == "powi":
                r = al.powi(n.a[0]._nf, n.a[1])
            elif op == "powq":
                r = al.powq(n.a[0]._nf, n.a[1])
            elif op == "exp":
                r = al.exp(n.a[0]._nf)
            elif op == "log":
                if n.a[0]._nf.is_zero():
                    raise Poison()
                r = al.log(n.a[0]._nf)
            elif op == "uf":
                r = al.uf(n.a[0], tuple(x._nf for x in n.a[1:]))
            elif op == "fn":
                r = al.fn(n.a[0], n.a[1]._nf)
            elif op == "nf":
                r = n.a[0]
            elif op == "poison":
                raise Poison()
            else:
                raise AssertionError(op)
            n._nf = r
            stack.pop()
        return s._nf

    def from_nf(self, nf):
        c = nf.const()
        if c is not None:
            return S.const(c)
        n = object.__new__(S)
        n.op, n.a, n._nf, n._fp = "nf", (nf,), nf, None
        self.cons[("nf", id(n))] = n
        return n

    def subst(self, s, v, by):
        """s with the variable v replaced by the expression `by`"""
        return self._subst(s, v, by, {})

    def _subst(self, s, v, by, memo):
        if s is v or (s.op == "v" and s.a[0] == v.a[0]):
            return by
        r = memo.get(id(s))
        if r is not None:
            return r
        g = [self._subst(x, v, by, memo) if isinstance(x, S) else x for x in s.a]
        op = s.op
        if op in ("c", "poison"):
            r = s
        elif op == "v":
            r = s
        elif op == "nf":
            r = self._subst_nf(s.a[0], v, by, memo)
        elif op in ("+", "-", "*", "/"):
            r = _arith(op, *g)
        elif op in ("powi", "powq"):
            r = g[0] ** S.const(g[1])
        elif op in ("exp", "log"):
            r = getattr(g[0], op)()
        else:
            r = S.mk(op, *g)
        memo[id(s)] = r
        return r

    def _subst_nf(self, nf, v, by, memo):
        def poly(p):
            t = S.const(0)
            for m, c in p.items():
                u = S.const(c)
                for a, e in m:
                    u = u * atom(a) ** S.const(F(e))
                t = t + u
            return t

        def atom(aid):
            k = ("atom", aid)
            if k in memo:
                return memo[k]
            a = self.alg.atoms[aid]
            if a.kind == "var":
                r = by if a.name == v.a[0] else self.from_nf(self.alg.of_atom(a))
            elif not self._has_var(aid, v):
                r = self.from_nf(self.alg.of_atom(a))
            elif a.kind == "exp":
                r = self._subst_nf(a.data, v, by, memo).exp()
            elif a.kind == "log":
                r = abs(self._subst_nf(a.data, v, by, memo)).log()
            elif a.kind == "rad":
                r = self._subst_nf(a.data[0], v, by, memo) ** S.const(F(1, a.data[1]))
            else:
                raise EngineLimit("substitution below an uninterpreted function")
            memo[k] = r
            return r
        t = poly(nf.num)
        for f, k in nf.den:
            t = t / poly(self.alg.factors[f]) ** S.const(k)
        return t

    def _has_var(self, aid, v):
        n = self.alg.of_atom(self.alg.atoms[aid])
        return any(self.alg.atoms[a].kind == "var" and self.alg.atoms[a].name == v.a[0] for a in self.alg.atoms_of(n))

    def diff_expr(self, s, v):
        return self.from_nf(self.alg.diff(self.nf(s), v.a[0]))

    # ------------------------------------------------------------ numeric evaluation
    def evalf(self, s, env, memo=None):
        """evaluate a node at env: name -> mpf (env['$uf'] gives uninterpreted functions)"""
        memo = {} if memo is None else memo
        stack = [s]
        while stack:
            n = stack[-1]
            if id(n) in memo:
                stack.pop()
                continue
            todo = [x for x in n.a if isinstance(x, S) and id(x) not in memo]
            if todo:
                stack.extend(todo)
                continue
            op = n.op
            g = [memo[id(x)] for x in n.a if isinstance(x, S)]
            if op == "c":
                r = mpmath.mpf(n.a[0].numerator) / n.a[0].denominator
            elif op == "v":
                r = env[n.a[0]]
            elif op == "+":
                r = g[0] + g[1]
            elif op == "-":
                r = g[0] - g[1]
            elif op == "*":
                r = g[0] * g[1]
            elif op == "/":
                r = g[0] / g[1] if g[1] != 0 else mpmath.nan
            elif op == "powi":
                r = g[0] ** n.a[1]
            elif op == "powq":
                e = mpmath.mpf(n.a[1].numerator) / n.a[1].denominator
                r = g[0] ** e if g[0] >= 0 else mpmath.nan
            elif op == "exp":
                r = mpmath.exp(g[0]) if g[0] < 1e6 else mpmath.inf
            elif op == "log":
                r = mpmath.log(g[0]) if g[0] > 0 else mpmath.nan
            elif op == "uf":
                r = env["$uf"](n.a[0], g)
            elif op == "fn":
                r = getattr(mpmath, n.a[0])(g[0])
            elif op == "nf":
                r = self.alg.evalf(n.a[0], env)
            else:
                r = mpmath.nan
            memo[id(n)] = r
            stack.pop()
        return memo[id(s)]

    def holds(self, b, env, memo=None, margin=0):
        """evaluate formula at env"""
        memo = {} if memo is None else memo
        op = b.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "and":
            return all(self.holds(x, env, memo, margin) for x in b.a)
        if op == "or":
            return any(self.holds(x, env, memo, margin) for x in b.a)
        if op == "not":
            return self.holds(negate(b.a[0]), env, memo, margin)
        x, y = (self.evalf(t, env, memo) for t in b.a)
        d = x - y
        if mpmath.isnan(d):
            return False
        m = margin * (1 + abs(x) + abs(y)) if margin else 0
        eps = mpmath.mpf(10) ** -25 * (1 + abs(x) + abs(y))
        if op == "<":
            return d < -m and d < -eps
        if op == "<=":
            return d <= -m or (not margin and d <= eps)
        if op == ">":
            return d > m and d > eps
        if op == ">=":
            return d >= m or (not margin and d >= -eps)
        if op == "==":
            return abs(d) <= eps
        return abs(d) > max(m, eps)

    def gap(self, b, env, memo, margin):
        """how far the formula is from holding with this margin (0: holds); None: undefined"""
        op = b.op
        if op in ("true", "false"):
            return 0 if op == "true" else 1e6
        if op in ("and", "or"):
            g = [self.gap(x, env, memo, margin) for x in b.a]
            if op == "and":
                return None if None in g else sum(g)
            g = [x for x in g if x is not None]
            return min(g) if g else None
        if op == "not":
            return self.gap(negate(b.a[0]), env, memo, margin)
        x, y = (self.evalf(t, env, memo) for t in b.a)
        d = x - y
        if mpmath.isnan(d) or mpmath.isinf(d):
            return None
        m = margin * (1 + abs(x) + abs(y))
        d = {"<": d + m, "<=": d + m, ">": m - d, ">=": m - d, "==": abs(d) if abs(d) > 1e-22 else 0, "!=": m - abs(d)}[op]
        return max(d, 0) + (mpmath.mpf(1) / 1000 if d > 0 else 0)

    def ground_value(self, s):
        if s.op == "c":
            return s.a[0]
        try:
            n = self.nf(s)
        except Poison:
            return mpmath.nan
        c = n.const()
        if c is not None:
            return c
        if self.alg.is_ground(n):
            return self.alg.evalf(n, {})
        return None

    # ------------------------------------------------------------ deciding
    def simplify(self, b):
        """returns True/False if the formula is decided without the solver, else b"""
        op = b.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            r = self.simplify(b.a[0])
            return (not r) if isinstance(r, bool) else b
        if op in ("and", "or"):
            rs = [self.simplify(x) for x in b.a]
            dom = op == "or"
            if any(r is dom for r in rs):
                return dom
            rs = [r for r in rs if not isinstance(r, bool)]
            if not rs:
                return not dom
            return b
        try:
            d = self.alg.sub(self.nf(b.a[0]), self.nf(b.a[1]))
        except TooBig:
            return b
        c = d.const()
        sg = None
        if c is not None:
            sg = (c > 0) - (c < 0)
        else:
            sg = self._quick_sign(d)
            if sg is None and self.alg.is_ground(d):
                v = self.alg.evalf(d, {})
                if abs(v) > mpmath.mpf(10) ** -25:
                    sg = 1 if v > 0 else -1
        if sg is None:
            return b
        return {"<": sg < 0, "<=": sg <= 0, ">": sg > 0, ">=": sg >= 0, "==": sg == 0, "!=": sg != 0}[op]

    def _quick_sign(self, d):
        """sign of an NF whose terms are all products of positive atoms with equal sign"""
        def ps(p):
            s = None
            for m, c in p.items():
                t = 1 if c > 0 else -1
                for a, e in m:
                    if not self.alg.atoms[a].pos:
                        return None
                if s is None:
                    s = t
                elif s != t:
                    return None
            return s
        s = ps(d.num)
        if s is None:
            return None
        for f, k in d.den:
            t = ps(self.alg.factors[f])
            if t is None:
                return None
            if k % 2:
                s *= t
        return s

    def add_pc(self, b):
        self.pc.append(b)
        self.zctx.assert_pc(b)
        if self.sample_env is not None and not self.holds(b, self.sample_env):
            self.sample_env = None

    def assume_raw(self, b):
        self.add_pc(b)

    def assume(self, b):
        if not isinstance(b, SB):
            if not bool(b):
                raise PathEnd()
            return
        r = self.simplify(b)
        if r is True:
            return
        if r is False:
            raise PathEnd()
        if b.op == "and":
            for x in b.a:
                self.assume(x)
            return
        self.add_pc(b)
        if b.op in (">", ">=", "!=", "<", "<="):
            pass

    def feasible(self, b):
        """True / False / None(unknown)"""
        return self.zctx.check(b)

    def decide(self, b):
        r = self.simplify(b)
        if isinstance(r, bool):
            return r
        if self._in_oracle:
            raise EngineLimit("nested decision")
        if self.deadline and time.time() > self.deadline:
            raise EngineLimit("case deadline")
        i = len(self.trace)
        if i < len(self.prefix):
            v, alt = self.prefix[i]
            self.trace.append((v, alt))
            self.add_pc(b if v else negate(b))
            return v
        self.stats["decisions"] += 1
        ft = self.feasible(b)
        if ft is False:
            ff = True
        else:
            ff = self.feasible(negate(b))
        if ft is None or ff is None:
            self.stats["unknown_feas"] += 1
        ft = ft is not False
        ff = ff is not False
        if ft and ff:
            v, alt = True, True
        elif ft:
            v, alt = True, False
            self.stats["forced"] += 1
        elif ff:
            v, alt = False, False
            self.stats["forced"] += 1
        else:
            raise PathEnd()
        self.trace.append((v, alt))
        self.add_pc(b if v else negate(b))
        return v

    def choose(self, n):
        """non-deterministic choice among range(n): always explored exhaustively"""
        i = len(self.trace)
        if i < len(self.prefix):
            v, alt = self.prefix[i]
            self.trace.append((v, alt))
            return v
        self.stats["decisions"] += 1
        self.trace.append((0, n))
        return 0

    def _sure(self, s, op):
        """Fork on `s op 0`; returns True on the branch where it holds.  If the solver can
        neither prove nor refute it the fact is assumed and recorded."""
        key = (id(s), op)
        if key in self._signcache:
            return self._signcache[key]
        b = SB(op, s, S.const(0))
        r = self.simplify(b)
        if not isinstance(r, bool):
            i = len(self.trace)
            if i >= len(self.prefix) and self.feasible(negate(b)) is None:
                self.side_assumptions.add(f"{op} 0 taken for an operand the solver could not bound")
                self.trace.append((True, False))
                self.add_pc(b)
                r = True
            else:
                r = self.decide(b)
        self._signcache[key] = r
        return r

    def sure_nonzero(self, s): return self._sure(s, "!=")
    def sure_pos(self, s): return self._sure(s, ">")
    def sure_nonneg(self, s): return self._sure(s, ">=")

    def _pos_oracle(self, nf):
        if self._in_oracle:
            return False
        self._in_oracle += 1
        try:
            return self.zctx.check_nf_nonpos(nf) is False
        finally:
            self._in_oracle -= 1

    def concretize_floor(self, s):
        c = self.ground_value(s)
        if c is not None:
            if isinstance(c, F):
                return c.__floor__()
            return int(mpmath.floor(c))
        for _ in range(40):
            i = len(self.trace)
            if i < len(self.prefix):
                k = self.prefix[i][0]
                if isinstance(k, tuple):
                    k = k[1]
                    self.trace.append(self.prefix[i])
                else:
                    raise EngineLimit("trace mismatch")
            else:
                k = self.zctx.model_floor(s)
                if k is None:
                    raise EngineLimit("cannot concretise an integer")
                self.trace.append((("fl", k), False))
            b = SB("and", SB("<=", S.const(k), s), SB("<", s, S.const(k + 1)))
            if self.decide(b):
                return k
        raise EngineLimit("too many integer values")

    def concretize_round(self, s):
        k = self.concretize_floor(s + F(1, 2))
        # banker's rounding at exact .5
        if k % 2 != 0 and bool(s == S.const(F(2 * k - 1, 2))):
            return k - 1
        return k

    # ------------------------------------------------------------ exploration driver
    def paths(self, fn):
        """run fn once per feasible path; yields (result, exception)"""
        work = [[]]
        while work:
            prefix = work.pop()
            if self.stats["paths"] >= self.max_paths:
                raise EngineLimit(f"more than {self.max_paths} paths")
            if self.deadline and time.time() > self.deadline:
                raise EngineLimit("case deadline")
            self.reset_path(prefix)
            exc = None
            res = None
            try:
                res = fn()
            except PathEnd:
                exc = "infeasible"
                self.stats["infeasible"] += 1
            except EngineLimit:
                raise
            except Poison:
                exc = "poison"
            except Exception as e:  # an exception of the code under test
                exc = e
            # alternatives opened by this run
            for i in range(len(prefix), len(self.trace)):
                v, alt = self.trace[i]
                if isinstance(v, bool):
                    if alt:
                        work.append(self.trace[:i] + [(not v, False)])
                elif isinstance(v, int):
                    for k in range(v + 1, alt):
                        work.append(self.trace[:i] + [(k, 0)])
            if exc == "infeasible":
                continue
            self.stats["paths"] += 1
            self.stats["atoms"] = max(self.stats["atoms"], len(self.alg.atoms))
            yield res, exc


def default_uf(name, args):
    """a fixed smooth function per name, used where a concrete function is needed"""
    h = sum((i + 1) * ord(c) for i, c in enumerate(name))
    r = mpmath.mpf(0.3) + mpmath.mpf(h % 7) / 5
    for i, x in enumerate(args):
        r += (mpmath.mpf((h + 3 * i) % 5 + 1) / 3) * mpmath.sin(x * ((h + i) % 4 + 1) / 2 + i + h % 11)
    return r


def negate(b):
    op = b.op
    if op in NEG:
        return SB(NEG[op], *b.a)
    if op == "not":
        return b.a[0]
    if op == "and":
        return SB("or", *[negate(x) for x in b.a])
    if op == "or":
        return SB("and", *[negate(x) for x in b.a])
    return SB("false" if op == "true" else "true")


# ---------------------------------------------------------------------------------------------
class ZCtx:
    """z3 view of a path: variables for atom roots, axioms for transcendental atoms."""

    def __init__(self, eng):
        self.e = eng
        self.base = {}  # aid -> z3 var (the atom itself)
        self.roots = {}  # (aid, L) -> z3 var
        self.axioms = []
        self.asserts = []
        self.exps = []
        self.logs = []
        self.ufs = []
        self.names = {}
        self.n_used = 0

    # -- translation -------------------------------------------------------
    def atomvar(self, aid):
        v = self.base.get(aid)
        if v is not None:
            return v
        a = self.e.alg.atoms[aid]
        v = z3.Real(f"a{aid}_{a.name}")
        self.base[aid] = v
        if a.pos:
            self.axioms.append(v > 0)
        if a.kind == "exp":
            b = self._term(a.data)
            self.axioms += [z3.Implies(b > 0, v > 1), z3.Implies(b < 0, v < 1),
                            z3.Implies(b == 0, v == 1), v >= 1 + b, v * (1 - b) <= 1]
            for (b2, v2) in self.exps[:5]:
                self.axioms.append(z3.Implies(b < b2, v < v2))
                self.axioms.append(z3.Implies(b > b2, v > v2))
            self.exps.append((b, v))
            if self.e.alg.is_ground(a.data):
                self._ground_bounds(aid, v)
        elif a.kind == "log":
            p = self._term(a.data)
            if self.e.alg.is_ground(a.data):
                self._ground_bounds(aid, v)
            else:
                self.axioms += [z3.Implies(p > 1, v > 0),
                                z3.Implies(z3.And(p > 0, p < 1), v < 0),
                                z3.Implies(p == 1, v == 0), z3.Implies(p > 0, v <= p - 1)]
            for (p2, v2) in self.logs[:5]:
                self.axioms.append(z3.Implies(z3.And(p > 0, p < p2), v < v2))
                self.axioms.append(z3.Implies(z3.And(p2 > 0, p > p2), v > v2))
            self.logs.append((p, v))
        elif a.kind == "rad":
            base, q = a.data
            b = self._term(base)
            p = v
            for _ in range(q - 1):
                p = p * v
            self.axioms.append(z3.Implies(b >= 0, p == b))
            if not a.pos:
                self.axioms.append(v >= 0)
            if self.e.alg.is_ground(base):
                self._ground_bounds(aid, v)
        elif a.kind == "prime":
            self.axioms.append(v == a.data)
        elif a.kind == "uf":
            args = [self._term(x) for x in a.data[1]]
            for (fn, args2, v2) in self.ufs[:10]:
                if fn == a.data[0] and len(args) == len(args2):
                    self.axioms.append(z3.Implies(z3.And(*[x == y for x, y in zip(args, args2)]), v == v2))
            self.ufs.append((a.data[0], args, v))
        return v

    def _ground_bounds(self, aid, v):
        x = self.e.alg._evalatom(aid, {}, {})
        lo = F(int(mpmath.floor(x * 10 ** 12)), 10 ** 12)
        self.axioms += [v >= zq(lo), v <= zq(lo + F(1, 10 ** 12))]

    def rootvar(self, aid, L):
        if L == 1:
            return self.atomvar(aid)
        k = (aid, L)
        v = self.roots.get(k)
        if v is None:
            b = self.atomvar(aid)
            v = z3.Real(f"a{aid}_r{L}")
            self.roots[k] = v
            p = v
            for _ in range(L - 1):
                p = p * v
            self.axioms += [v > 0, p == b]
            for (a2, L2), v2 in list(self.roots.items()):
                if a2 == aid and L2 != L and (L % L2 == 0 or L2 % L == 0):
                    big, small, k = (v, v2, L // L2) if L % L2 == 0 else (v2, v, L2 // L)
                    p = small  # the coarser root equals a power of the finer one... small**k
                    q = big
                    for _ in range(k - 1):
                        q = q * big
                    self.axioms.append(q == p)
            a = self.e.alg.atoms[aid]
            if a.kind == "exp":
                t = self._term(a.data) / L
                self.axioms += [v >= 1 + t, v * (1 - t) <= 1]
        return v

    def _mono(self, m):
        num, den = [], []
        for a, e in m:
            L = 1 if isinstance(e, int) else e.denominator
            k = e if isinstance(e, int) else e.numerator
            v = self.rootvar(a, L)
            (num if k > 0 else den).append((v, abs(k)))
        return num, den

    def _poly(self, p):
        """z3 term of a polynomial times a common positive-or-signed monomial; returns (term, den)
        with den a list of (z3 factor, multiplicity)"""
        mins = {}
        for m in p:
            for a, e in m:
                if e < 0 and e < mins.get(a, 0):
                    mins[a] = e
        shift = tuple(sorted((a, -e) for a, e in mins.items()))
        from engine.nf import mono_mul
        terms = []
        for m, c in p.items():
            mm = mono_mul(m, shift)
            t = None
            for a, e in mm:
                L = 1 if isinstance(e, int) else e.denominator
                k = e if isinstance(e, int) else e.numerator
                v = self.rootvar(a, L)
                for _ in range(k):
                    t = v if t is None else t * v
            t = zq(c) if t is None else (t if c == 1 else zq(c) * t)
            terms.append(t)
        if not terms:
            return z3.RealVal(0), []
        s = terms[0] if len(terms) == 1 else z3.Sum(terms)
        den = []
        for a, e in shift:
            L = 1 if isinstance(e, int) else e.denominator
            k = e if isinstance(e, int) else e.numerator
            den.append((self.rootvar(a, L), k, self.e.alg.atoms[a].pos))
        return s, den

    def _parts(self, nf):
        """(numerator term, [(factor term, mult, known_pos)])"""
        t, den = self._poly(nf.num)
        for f, k in nf.den:
            ft, fd = self._poly(self.e.alg.factors[f])  # factors have non-negative exponents
            den.append((ft, k, False))
        return t, den

    def _term(self, nf):
        t, den = self._parts(nf)
        if not den:
            return t
        d = None
        for v, k, _ in den:
            for _ in range(k):
                d = v if d is None else d * v
        return t / d

    def _expdiff(self, nf):
        """numerator c*M*(exp(A) - exp(B)) with M > 0: a z3 term with its sign, from c*(A - B)"""
        al = self.e.alg
        if len(nf.num) != 2:
            return None
        (m1, c1), (m2, c2) = nf.num.items()
        if c1 != -c2:
            return None
        x = al.zero
        d1, d2 = dict(m1), dict(m2)
        any_exp = False
        for a in set(d1) | set(d2):
            e1, e2 = d1.get(a, 0), d2.get(a, 0)
            at = al.atoms[a]
            if e1 == e2:
                if not at.pos:
                    return None
                continue
            if at.kind != "exp":
                return None
            any_exp = True
            x = al.add(x, al.mul(al.const_nf(F(e1) - F(e2)), at.data))
        if not any_exp:
            return None
        return al.mul(al.const_nf(c1), x)

    def _loglinear(self, nf):
        """a z3 term without logarithms that has the sign of the numerator sum c_i log|P_i|"""
        al = self.e.alg
        ks = []
        rest = None
        for m, c in nf.num.items():
            lg = [x for x in m if al.atoms[x[0]].kind == "log"]
            r = tuple(x for x in m if al.atoms[x[0]].kind != "log")
            if len(lg) != 1 or lg[0][1] != 1 or (rest is not None and r != rest):
                return None
            rest = r
            ks.append((al.atoms[lg[0][0]].data, c))
        if not ks or any(not al.atoms[a].pos for a, _ in rest):
            return None
        L = 1
        for _, c in ks:
            L = L * c.denominator // math.gcd(L, c.denominator)
        n = d = al.one
        deg = 0
        for i, (p, c) in enumerate(ks):
            if p.const() is None:
                if not p.den and al.poly_pos(p.num):
                    pass
                elif not p.den and al.poly_pos(al.neg(p).num):
                    ks[i] = (al.neg(p), c)
                else:
                    L *= 2  # |P|^2 = P^2
                    break
        for p, c in ks:
            k = int(c * L)
            if p.const() is None:
                deg += abs(k)
            if deg > 8 or abs(k) > 200:
                return None
            if k > 0:
                n = al.mul(n, al.powi(p, k))
            else:
                d = al.mul(d, al.powi(p, -k))
        r = al.sub(n, d)
        return self._parts(r)[0] if not r.den else None

    def _rel(self, op, nf):
        """z3 formula for nf op 0 with denominators cleared"""
        x = self._expdiff(nf)
        if x is not None:
            if nf.den:
                x = NF(x.num, tuple(sorted(dict_add(x.den, nf.den).items())))
            nf = x
        t, den = self._parts(nf)
        ll = self._loglinear(nf)
        if ll is not None:
            t = ll
            den = [x for x in den if not x[2]]
        sign = None
        side = []
        for v, k, pos in den:
            if not pos:
                side.append(v != 0)
                if k % 2:
                    sign = v if sign is None else sign * v
        if op == "==":
            f = t == 0
        elif op == "!=":
            f = t != 0
        else:
            tt = t if sign is None else t * sign
            f = {"<": tt < 0, "<=": tt <= 0, ">": tt > 0, ">=": tt >= 0}[op]
        return z3.And(f, *side) if side else f

    def formula(self, b):
        op = b.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return self.formula(negate(b.a[0]))
        if op in ("and", "or"):
            fs = [self.formula(x) for x in b.a]
            return z3.And(*fs) if op == "and" else z3.Or(*fs)
        al = self.e.alg
        return self._rel(op, al.sub(self.e.nf(b.a[0]), self.e.nf(b.a[1])))

    def assert_pc(self, b):
        try:
            self.asserts.append(self.formula(b))
        except TooBig:
            self.e.side_assumptions.add("a path condition too large to encode was dropped")

    def _solve_pos(self, fs):
        """is the disjunction of fs unsatisfiable from the positivity of the atoms alone?"""
        t0 = time.time()
        e = self.e
        e.stats["queries"] += 1
        s = z3.SolverFor("QF_NRA")
        s.set("rlimit", e.rlimit)
        s.set("timeout", 4000)
        s.add(*[v > 0 for a, v in self.base.items() if e.alg.atoms[a].pos])
        s.add(*[v > 0 for v in self.roots.values()])
        s.add(z3.Or(*fs))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        e.stats["solver_s"] += time.time() - t0
        return r

    # -- queries -------------------------------------------------------------
    def _solve(self, extra, rlimit=None, want_model=False, timeout=4000):
        t0 = time.time()
        e = self.e
        e.stats["queries"] += 1
        fs = self.axioms + self.asserts + extra
        lim = rlimit or e.rlimit
        res, model = z3.unknown, None
        for mk, frac in ((lambda: z3.SolverFor("QF_NRA"), 1), (lambda: z3.Solver(), 1)):
            s = mk()
            s.set("rlimit", int(lim * frac))
            s.set("timeout", timeout)
            s.add(*fs)
            try:
                res = s.check()
            except z3.Z3Exception:
                res = z3.unknown
            if res == z3.sat and want_model:
                model = s.model()
            if res != z3.unknown:
                break
        e.stats["solver_s"] += time.time() - t0
        return (res, model) if want_model else res

    def _names(self, f):
        """names of the variables in a z3 formula"""
        k = f.get_id()
        r = self.names.get(k)
        if r is None:
            out, todo, seen = set(), [f], set()
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.num_args() == 0:
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(x.decl().name())
                else:
                    todo.extend(x.children())
            r = self.names[k] = (f, frozenset(out))     # keeps f alive, so that its id stays its own
        return r[1]

    def _sliced(self, f):
        """is f unsatisfiable with just those path conditions that have no other variables?"""
        names = self._names(f)
        if len(names) > 4:
            return None
        all_ = self.axioms + self.asserts
        part = [x for x in all_ if self._names(x) <= names]
        if len(part) == len(all_) or not part:
            return None
        s = z3.SolverFor("QF_NRA")
        s.set("rlimit", 40000)
        s.set("timeout", 1000)
        s.add(f, *part)
        t0 = time.time()
        self.e.stats["queries"] += 1
        try:
            return s.check()
        except z3.Z3Exception:
            return None
        finally:
            self.e.stats["solver_s"] += time.time() - t0

    def check(self, b, rlimit=None):
        """feasibility of PC and b: True/False/None"""
        e = self.e
        if e.sample_env is not None:
            try:
                if e.holds(b, e.sample_env):
                    return True
            except Exception:
                pass
        try:
            f = self.formula(b)
        except TooBig:
            return None
        if self._sliced(f) == z3.unsat:
            return False
        r, m = self._solve([f], rlimit, want_model=True)
        if r == z3.sat and e.sample_env is None:
            # adopt the model as the path's concrete witness if it also satisfies the path
            # condition under the true exp/log
            try:
                env = self._env(m)
                if e.holds(b, env) and all(e.holds(c, env) for c in e.pc):
                    e.sample_env = env
            except Exception:
                pass
        return verdict(r)

    def _env(self, m):
        env = {"$uf": default_uf}
        rng = self.e.rng
        for name, (s, lo, hi, pos) in self.e.vars.items():
            v = self.base.get(self.e.alg._intern[("var", name)].id)
            val = m.eval(v) if v is not None else None
            if val is not None and (z3.is_rational_value(val) or z3.is_algebraic_value(val)):
                f = zfrac(val)
                env[name] = mpmath.mpf(f.numerator) / f.denominator
            else:
                a = float(lo) if lo is not None else (float(hi) - 3 if hi is not None else -2.0)
                b = float(hi) if hi is not None else a + 4
                env[name] = mpmath.mpf(a + (b - a) * (0.1 + 0.8 * rng.random()))
        return env

    def check_nf_nonpos(self, nf):
        r = self._solve([self._rel("<=", nf)], 60000)
        return verdict(r)

    def model(self, extra=(), rlimit=None):
        """a dict name -> Fraction satisfying PC (and extra), or (None, status)"""
        r, m = self._solve(list(extra), rlimit, want_model=True)
        if r != z3.sat:
            return None, r
        env = {}
        for name, (s, lo, hi, pos) in self.e.vars.items():
            aid = self.e.alg._intern[("var", name)].id
            v = self.base.get(aid)
            if v is None:
                env[name] = None
                continue
            val = m.eval(v, model_completion=True)
            env[name] = zfrac(val)
        uf = []
        for fn, args, v in self.ufs:
            try:
                uf.append((fn, [zfrac(m.eval(x, model_completion=True)) for x in args],
                           zfrac(m.eval(v, model_completion=True))))
            except Exception:
                pass
        return (env, uf), r

    def model_floor(self, s):
        e = self.e
        t = self._term(e.nf(s))
        r, m = self._solve([], want_model=True)
        if r != z3.sat:
            return None
        v = zfrac(m.eval(t, model_completion=True))
        return v.__floor__()


def dict_add(a, b):
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return d


def verdict(r):
    return True if r == z3.sat else False if r == z3.unsat else None


def zq(c):
    c = F(c)
    return z3.RealVal(c.numerator) / c.denominator if c.denominator != 1 else z3.RealVal(c.numerator)


def zfrac(v):
    if z3.is_rational_value(v):
        return F(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return F(a.numerator_as_long(), a.denominator_as_long())
    raise EngineLimit(f"model value {v}")
