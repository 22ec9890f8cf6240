"""The worlds a harness can run in: symbolic (all inputs at once) and concrete (one input, real code).

A harness is a function h(W) written once.  In the symbolic world its inputs are symbolic reals and its
claims become solver queries under the current path condition; in the concrete world the same text runs
against the unmodified modules of /repo with the floats of a counterexample."""
import importlib
import math
import os
import re
import shutil
import sys
import tempfile
import time
from fractions import Fraction as F

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AssumptionFailed(BaseException):
    pass


def sample_value(rng, lo, hi):
    a = float(lo) if lo is not None else (float(hi) - 3 if hi is not None else -2.0)
    b = float(hi) if hi is not None else a + 4
    return a + (b - a) * (0.1 + 0.8 * rng.random())


def uf_value(name, args):
    h = sum((i + 1) * ord(c) for i, c in enumerate(name))
    r = 0.3 + (h % 7) / 5
    for i, x in enumerate(args):
        r += (((h + 3 * i) % 5 + 1) / 3) * math.sin(float(x) * ((h + i) % 4 + 1) / 2 + i + h % 11)
    return r


class Base:
    """what both worlds share"""

    def q(self, a, b=1):
        return self.const(F(a, b))

    def arr(self, x):
        return self.np.array(x, dtype=float)

    def vec(self, name, n, lo=None, hi=None, **k):
        return self.arr([self.var(f"{name}{i}", lo, hi, **k) for i in range(n)]) if n else self.np.zeros((0,))

    def mat(self, name, n, m, lo=None, hi=None, **k):
        return self.arr([[self.var(f"{name}{i}_{j}", lo, hi, **k) for j in range(m)] for i in range(n)]).reshape((n, m))

    def pos(self, name, hi=None, lo=0):
        return self.var(name, lo, hi, strict_lo=True)

    def increasing(self, name, n, start=None, gap_hi=None):
        """n strictly increasing reals"""
        t = self.var(name + "0") if start is None else start
        out = [t]
        for i in range(1, n):
            t = t + self.var(f"{name}d{i}", 0, gap_hi, strict_lo=True)
            out.append(t)
        return self.arr(out)

    def close(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="verif_")
        self._dirs.append(d)
        return d

    def raises(self, fn, msg, exc=Exception):
        try:
            fn()
        except exc:
            return self.ok(msg)
        except AssumptionFailed:
            raise
        self.fail(msg + ": no exception was raised")

    @property
    def cpp(self):
        """the C++ classes (engine/cpp.py)"""
        if getattr(self, "_cpp", None) is None:
            from engine.cpp import Cpp
            self._cpp = Cpp(self)
        return self._cpp

    def cls(self, mod, name=None):
        m = self.mod("dmpbbo." + mod)
        return getattr(m, name or mod.split(".")[-1])

    def same(self, a, b, msg, **k):
        """equality of two arrays / scalars / None / lists thereof"""
        if a is None or b is None:
            return self.true((a is None) == (b is None), msg + ": one side is None")
        return self.eq(a, b, msg, **k)


# =============================================================================================
class ConcreteWorld(Base):
    symbolic = False

    def __init__(self, env, choices=(), params=None, uf=None, loose=1.0, repo=None):
        self.env = env or {}
        self.choices = list(choices)
        self.params = params or {}
        self.uf_table = uf or []
        self.np = np
        self.fails = []
        self.n_ok = 0
        self._dirs = []
        self.rng_calls = []
        self.loose = loose
        self._nr = 0
        import random
        self._rng = random.Random(5)
        self._patch_random()

    # ----- inputs
    def mod(self, name):
        return importlib.import_module(name)

    def var(self, name, lo=None, hi=None, **k):
        v = self.env.get(name)
        if v is None:
            v = self.env[name] = sample_value(self._rng, lo, hi)
        return float(v)

    def const(self, c):
        c = F(c)
        return float(c) if c.denominator != 1 else float(c)

    def choose(self, n, name=""):
        return self.choices.pop(0) if self.choices else 0

    def assume(self, b):
        if not bool(np.all(b)):
            raise AssumptionFailed()

    def uf(self, name, *args):
        fa = [float(a) for a in args]
        for n, xs, v in self.uf_table:
            if n == name and len(xs) == len(fa) and all(abs(x - y) <= 1e-9 * (1 + abs(x)) for x, y in zip(xs, fa)):
                return float(v)
        return uf_value(name, fa)

    def _patch_random(self):
        W = self
        real = {k: getattr(np.random, k) for k in ("multivariate_normal", "normal", "randn", "standard_normal",
                                                   "uniform", "rand", "random", "random_sample")}

        def shape(s):
            return () if s is None else tuple(s) if isinstance(s, (tuple, list)) else (int(s),)

        def mvn(mean, cov, size=None, *a, **k):
            W.rng_calls.append(("mvn", np.array(mean), np.array(cov), size))
            return W.fresh_random(shape(size) + (np.size(mean),), "mvn")
        W._real_random = real
        np.random.multivariate_normal = mvn
        np.random.normal = lambda loc=0, scale=1, size=None: loc + scale * W.fresh_random(
            shape(size) if size is not None else np.broadcast(loc, scale).shape, "normal")
        np.random.randn = lambda *s: W.fresh_random(s, "randn")
        np.random.standard_normal = lambda size=None: W.fresh_random(shape(size), "randn")
        np.random.uniform = lambda low=0, high=1, size=None: W.fresh_random(shape(size), "uniform")
        np.random.rand = lambda *s: W.fresh_random(s, "randn")

        gen = np.random.Generator(np.random.PCG64(5))

        class Gen:
            multivariate_normal = staticmethod(mvn)
            standard_normal = staticmethod(np.random.standard_normal)
            normal = staticmethod(np.random.normal)
            uniform = staticmethod(np.random.uniform)
            def __getattr__(self, n):
                return getattr(gen, n)
        W._real_random["default_rng"] = np.random.default_rng
        np.random.default_rng = lambda *a, **k: Gen()

    def load_json(self, f):
        import json
        with open(f) as h:
            return json.load(h)

    def moments(self, fn):
        """estimated mean, covariance and covariance of two successive samples of fn(n) (real random numbers)"""
        fake = {k: getattr(np.random, k) for k in self._real_random}
        try:
            for k, v in self._real_random.items():
                setattr(np.random, k, v)
            np.random.seed(7)
            x = np.asarray(fn(200000), dtype=float)
        finally:
            for k, v in fake.items():
                setattr(np.random, k, v)
        m = x.mean(axis=0)
        z = x - m
        return m, z.T @ z / len(z), z[1:].T @ z[:-1] / (len(z) - 1)

    def fresh_random(self, shape, tag):
        k = self._nr
        self._nr += 1
        n = int(np.prod(shape)) if len(shape) else 1
        v = np.array([self.var(f"rnd{k}_{i}", -3, 3) for i in range(n)])
        return v.reshape(shape) if len(shape) else v[0]

    # ----- claims
    def ok(self, msg):
        self.n_ok += 1

    def fail(self, msg):
        self.fails.append(msg)

    def true(self, b, msg):
        if bool(np.all(b)):
            self.ok(msg)
        else:
            self.fail(msg)

    def eq(self, a, b, msg, tol=1e-6, scale=0.0):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return self.fail(f"{msg}: shapes {a.shape} and {b.shape} differ")
        tol = tol * self.loose
        for i in np.ndindex(a.shape):
            x, y = a[i], b[i]
            if np.isnan(x) and np.isnan(y) or x == y:
                continue
            if not (np.isfinite(x) and np.isfinite(y)) or abs(x - y) > tol * max(abs(x), abs(y), scale) + tol * 1e-2:
                return self.fail(f"{msg}{list(i) if i else ''}: {x!r} != {y!r}")
        self.ok(msg)

    def le(self, a, b, msg, tol=1e-9, scale=0.0, strict=False):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        tol = tol * self.loose
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if not x <= y + tol * max(1.0, abs(x), abs(y), scale):
                return self.fail(f"{msg}: {x!r} > {y!r}")
        self.ok(msg)

    def lt(self, a, b, msg, **k):
        return self.le(a, b, msg, **k)

    def ne(self, a, b, msg):
        if np.all(np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float)) > 1e-12):
            return self.ok(msg)
        return self.fail(msg)

    def ddt(self, f, t, msg=""):
        """time derivative of f (a function of scalar time returning an array) at t"""
        h = 1e-5 * max(1.0, abs(t))
        return (8 * (np.asarray(f(t + h)) - np.asarray(f(t - h))) - (np.asarray(f(t + 2 * h)) - np.asarray(f(t - 2 * h)))) / (12 * h)

    ddt_tol = 1e-4

    def finite(self, a, msg):
        self.true(np.all(np.isfinite(np.asarray(a, dtype=float))), msg)

    def touch(self, *a):
        pass

    def reached(self, label):
        pass


# =============================================================================================
class FS:
    """contents of files written by savetxt live here; the real (scratch) file is only touched"""

    def __init__(self):
        self.d = {}

    def savetxt(self, fname, X, *a_fmt, **k):
        from engine import sym
        from engine.npshim import sarr
        key = os.path.realpath(str(fname))
        a = X if isinstance(X, np.ndarray) else sarr(X)
        if a.ndim > 2:
            raise ValueError("Expected 1D or 2D array, got %dD array instead" % a.ndim)
        if a.ndim == 0:
            a = a.reshape((1,))
        a = sarr(a) if a.dtype == object else a.copy()
        m = re.fullmatch(r"%[ #+-]*\d*\.(\d+)f", str(k.get("fmt", a_fmt[0] if a_fmt else "%.18e")))
        if m and int(m.group(1)) < 12 and a.dtype == object:
            # a fixed number of decimals: each number is stored up to half a unit of the last one
            r = F(1, 2 * 10 ** int(m.group(1)))
            for i in np.ndindex(a.shape):
                if np.asarray(a)[i].op != "c":
                    e = sym.ENG.world.fresh_between(-r, r)
                    np.asarray(a)[i] = np.asarray(a)[i] + e
        text = "\n".join(str(k.get("delimiter", " ")).join(self._token(x) for x in row) for row in np.asarray(a).reshape((a.shape[0], -1))) + "\n"
        with open(key, "w") as f:
            f.write(text)
        self.d[key] = (a, text)

    def _token(self, x):
        """as in json: a number for a constant, otherwise a name that readers (Python or C++) look up"""
        from engine import sym
        if not isinstance(x, sym.S) or x.op == "c":
            v = x.a[0] if isinstance(x, sym.S) else x
            if v == int(v):
                return str(int(v)) + ".0"
        t = sym.ENG.world.loader.json.tokens
        t.append(sym.S.lift(x))
        return f"@S:P{len(t) - 1}"

    def loadtxt(self, fname, *a, **k):
        from engine import sym
        from engine.npshim import sarr
        key = os.path.realpath(str(fname))
        if not os.path.exists(key):
            raise FileNotFoundError(f"{fname} not found.")
        with open(key) as f:
            text = f.read()
        if key in self.d and self.d[key][1] == text:
            X = self.d[key][0]
        elif "@S:" in text:     # written by somebody else
            W = sym.ENG.world
            X = sarr([[W.token(t) if t.startswith("@S:") else sym.S.lift(float(t)) for t in l.split(k.get("delimiter"))] for l in text.splitlines() if l.strip()])
        else:
            from engine.npshim import wrap
            return wrap(np.loadtxt(fname, *a, **k))
        nd = k.get("ndmin", 0)
        X = sarr(X) if X.dtype == object else sarr(X.astype(float))
        if X.ndim == 1:
            X = X.reshape((-1, 1))
        # savetxt/loadtxt squeeze singleton dimensions
        Y = sarr(np.asarray(X).squeeze()) if nd < 2 else X
        if Y.ndim < nd:
            Y = sarr(np.asarray(Y).reshape((1,))) if nd == 1 else X
        if Y.ndim == 0:
            return sarr(Y)
        return Y


class SymWorld(Base):
    symbolic = True

    def __init__(self, eng, loader, case, params, fixed=None):
        from engine.npshim import shim
        self.eng = eng
        self.loader = loader
        self.params = params
        self.np = shim
        self.case = case
        self._dirs = []
        self.fs = FS()
        self.rng_calls = []
        self._nr = 0
        self.fixed = fixed or {}
        self.fixed_values = {}
        self.choice_log = []
        self.case = case
        self.obl = case.obl
        self.reach = set()
        eng.world = self

    # ----- inputs
    def mod(self, name):
        return self.loader.load(name)

    def var(self, name, lo=None, hi=None, strict_lo=False, strict_hi=False, nonzero=False, free=False):
        self.case.allvars.setdefault(name, free)
        fx = None if free else self.fixed.get("*") or self.fixed.get(name)
        if fx:
            from engine.sym import S
            import random
            if name not in self.fixed_values:
                rng = random.Random(f"{fx}|{name}")
                v = F(round(sample_value(rng, lo, hi) * 64), 64)
                if lo is not None and v <= lo:
                    v = F(lo) + F(1, 64) * (1 if hi is None else 0) + (F(hi) - F(lo)) / 3 if hi is not None else F(lo) + F(1, 64)
                self.fixed_values[name] = v
            return S.const(self.fixed_values[name])
        return self.eng.var(name, lo, hi, strict_lo, strict_hi, nonzero)

    def const(self, c):
        from engine.sym import S
        return S.const(F(c))

    def choose(self, n, name=""):
        v = self.eng.choose(n)
        self.choice_log.append(v)
        return v

    def assume(self, b):
        if isinstance(b, np.ndarray):
            for x in b.reshape(-1):
                self.eng.assume(x)
        else:
            self.eng.assume(b)

    def uf(self, name, *args):
        from engine.npshim import el
        return self.eng.uf(name, [el(a) for a in args])

    def fresh_random(self, shape, tag):
        from engine.npshim import sarr, wrap
        k = self._nr
        self._nr += 1
        n = int(np.prod(shape)) if len(shape) else 1
        v = sarr([self.var(f"rnd{k}_{i}", None, None) for i in range(n)])
        if getattr(self, "random_log", None) is not None:
            self.random_log.append((tag, *(self.mvn_args if tag == "mvn" else (None, None)), v))
        return wrap(v.reshape(shape)) if len(shape) else v[0]

    def token(self, x):
        """the number that a name in a file stands for"""
        if x.startswith("@S:P"):
            return self.loader.json.tokens[int(x[4:])]
        from engine.cpp import NODES
        return NODES[int(x[3:])]

    def load_json(self, f):
        import json

        def m(x):
            if isinstance(x, str) and x.startswith("@S:"):
                return self.token(x)
            if isinstance(x, list):
                return [m(y) for y in x]
            if isinstance(x, dict):
                return {k: m(v) for k, v in x.items()}
            return x
        with open(f) as h:
            return m(json.load(h))

    def moments(self, fn):
        """exact mean, covariance and covariance of two successive samples of fn(n), if they are affine in the random numbers"""
        from engine.npshim import wrap, sarr
        from engine.sym import S
        self.random_log = log = []
        x = np.asarray(sarr(fn(2)))
        self.random_log = None
        d = x.shape[1]
        src = []
        for kind, mean, cov, arr in log:
            flat = [v for v in np.asarray(sarr(arr)).reshape(-1)]
            k = 1 if mean is None else mean.size
            for j in range(0, len(flat), k):
                src.append((flat[j:j + k], mean, cov))
        mean = [S.const(0)] * d
        C = [[[S.const(0)] * d for _ in range(d)] for _ in range(2)]
        base = [[x[r, i] for i in range(d)] for r in range(2)]
        for vs, mu, cov in src:
            B = [[[self.eng.diff_expr(x[r, i], v) for v in vs] for i in range(d)] for r in range(2)]
            k = len(vs)
            E = [mu[j] if mu is not None else S.const(0) for j in range(k)]
            for i in range(d):
                base[0][i] = base[0][i] + sum((B[0][i][j] * (E[j] - vs[j]) for j in range(k)), S.const(0))
                for l in range(d):
                    for a, b, o in ((0, 0, 0), (1, 0, 1)):
                        for j in range(k):
                            for q in range(k):
                                c = cov[j, q] if cov is not None else S.const(1 if j == q else 0)
                                C[o][i][l] = C[o][i][l] + B[a][i][j] * c * B[b][l][q]
        return wrap(np.array(base[0], dtype=object)), wrap(np.array(C[0], dtype=object)), wrap(np.array(C[1], dtype=object))

    def fresh_between(self, lo, hi):
        self._ne = getattr(self, "_ne", 0) + 1
        return self.var(f"rounding{self._ne}", lo, hi)

    # ----- claims
    def _fresh(self):
        return len(self.eng.trace) >= len(self.eng.prefix)

    def ok(self, msg):
        if self._fresh():
            self.case.stats["claims"] += 1
            self.case.stats["claims_structural"] += 1

    def fail(self, msg):
        if self._fresh():
            self.case.candidate(self, None, msg)

    def true(self, b, msg):
        from engine.sym import SB
        if isinstance(b, SB):
            return self._claim(b, msg)
        if isinstance(b, np.ndarray):
            for x in b.reshape(-1):
                self.true(x, msg)
            return
        if bool(b):
            self.ok(msg)
        else:
            self.fail(msg)

    def _claim(self, b, msg, pair=None):
        if self._fresh():
            self.case.claim(self, b, msg, pair)

    def _pairs(self, a, b, msg):
        from engine.npshim import sarr
        a, b = np.asarray(sarr(a, copy=False)), np.asarray(sarr(b, copy=False))
        if a.shape != b.shape:
            self.fail(f"{msg}: shapes {a.shape} and {b.shape} differ")
            return []
        return [(list(i), a[i], b[i]) for i in np.ndindex(a.shape)]

    def eq(self, a, b, msg, tol=None, scale=None):
        from engine.sym import SB
        for i, x, y in self._pairs(a, b, msg):
            m = f"{msg}{i if i else ''}"
            if x is y:
                self.ok(m)
                continue
            if x.op == "poison" or y.op == "poison":
                if x.op == y.op:
                    self.ok(m)
                else:
                    self.fail(m + ": undefined (NaN/inf) on one side")
                continue
            self._claim(SB("==", x, y), m, (x, y))

    def _ineq(self, op, a, b, msg):
        from engine.npshim import sarr
        from engine.sym import SB
        a, b = np.broadcast_arrays(np.asarray(sarr(a, copy=False)), np.asarray(sarr(b, copy=False)))
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if x.op == "poison" or y.op == "poison":
                self.fail(msg + ": undefined (NaN/inf)")
                continue
            self._claim(SB(op, x, y), msg)

    def le(self, a, b, msg, **k):
        self._ineq("<=", a, b, msg)

    def lt(self, a, b, msg, **k):
        self._ineq("<", a, b, msg)

    def ne(self, a, b, msg):
        self._ineq("!=", a, b, msg)

    def ddt(self, f, t, msg=""):
        from engine.npshim import sarr, wrap
        r = f(t)
        a = sarr(r)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = self.eng.diff_expr(np.asarray(a)[i], t)
        return wrap(out) if a.ndim else out.item()

    ddt_tol = 1e-4

    def finite(self, a, msg):
        from engine.npshim import sarr
        bad = any(x.op == "poison" for x in np.asarray(sarr(a, copy=False)).reshape(-1))
        self.fail(msg) if bad else self.ok(msg)

    def reached(self, label):
        self.case.reached.add(label)
