"""A numpy stand-in whose float arrays are object arrays of symbolic reals.

Everything that is not overridden here is numpy itself (which works on object arrays elementwise,
keeping views, aliasing, broadcasting and shape rules exactly as in the real program)."""
import builtins
import itertools
import math as _math
import numbers
import types
from fractions import Fraction as F

import numpy as np

from engine import sym
from engine.sym import S, SB, EngineLimit


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)


_FLOATS = (float, np.float64, np.float32, np.floating, "float", "double", "float64", "float32", "f8", "d")


def is_float_dtype(dt):
    if dt is None:
        return True
    if dt is sym_float or dt in _FLOATS:
        return True
    if dt is object or dt is sym_complex:
        return True
    try:
        return np.dtype(real_dtype(dt)).kind in "fO"
    except TypeError:
        return False


def real_dtype(dt):
    if dt is sym_int:
        return int
    if dt is sym_float:
        return object
    if dt is sym_bool:
        return bool
    return dt


def el(x):
    """one element -> S"""
    if isinstance(x, S):
        return x
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return el(x.reshape(-1)[0])
        raise ValueError("setting an array element with a sequence.")
    if isinstance(x, SB):
        return S.const(1 if bool(x) else 0)
    if x is None:
        return S.poison()
    if isinstance(x, str):
        return S.const(float(x))
    return S.const(x)


class SymArray(np.ndarray, metaclass=_NdMeta):
    def __new__(cls, shape, dtype=None, *a, **k):
        if is_float_dtype(dtype):
            r = np.ndarray.__new__(cls, shape, dtype=object)
            r.reshape(-1)[...] = UNINIT()
            return r
        return np.ndarray.__new__(np.ndarray, shape, real_dtype(dtype), *a, **k)

    def __getitem__(self, k):
        r = super().__getitem__(_key(k))
        return r

    def __setitem__(self, k, v):
        k = _key(k)
        if self.dtype != object:
            return super().__setitem__(k, v)
        if isinstance(v, np.ndarray):
            if v.dtype != object:
                v = sarr(v)
            if isinstance(k, tuple) and len(k) == self.ndim and all(isinstance(i, (int, np.integer)) for i in k) or (
                self.ndim == 1 and isinstance(k, (int, np.integer))
            ):
                if v.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                v = v.reshape(-1)[0]
        elif isinstance(v, (list, tuple)):
            v = sarr(v)
            if v.size == 1 and self[k].__class__ is S:
                v = v.reshape(-1)[0]
        else:
            v = el(v)
        super().__setitem__(k, v)

    def astype(self, dtype, *a, **k):
        if is_float_dtype(dtype):
            return self.copy()
        if real_dtype(dtype) in (int, np.int64, np.int32, "int", "int64", np.intp):
            return np.array([int(x) for x in self.reshape(-1)], dtype=int).reshape(self.shape)
        if real_dtype(dtype) in (bool, np.bool_):
            return np.array([bool(x) for x in self.reshape(-1)], dtype=bool).reshape(self.shape)
        raise EngineLimit(f"astype({dtype})")

    def fill(self, v):
        if self.dtype == object:
            self[...] = el(v)
        else:
            super().fill(v)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if self.dtype != object:
            return wrap(np.ndarray.mean(np.asarray(self), axis=axis))
        return _mean(self, axis, keepdims=keepdims)

    def std(self, axis=None, ddof=0, **k):
        return shim.std(self, axis=axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return shim.var(self, axis=axis, ddof=ddof)

    def round(self, decimals=0, out=None):
        return vec(lambda x: round(x, decimals) if decimals else S.const(round(x)), self)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return _argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = shim.sort(self, axis=axis)

    def argmin(self, axis=None, **k): return _argext(self, axis, False)
    def argmax(self, axis=None, **k): return _argext(self, axis, True)
    def dot(self, o): return wrap(np.ndarray.dot(self, o))

    def clip(self, min=None, max=None, out=None, **k):
        return _clip(self, min, max, out=out)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        if self.dtype == object and self.size == 0 and axis is None:
            return S.const(0)
        return wrap(np.add.reduce(self, axis=axis, keepdims=keepdims)) if self.dtype == object and axis is not None else (
            wrap(np.add.reduce(self.reshape(-1))) if self.dtype == object and not keepdims else wrap(np.ndarray.sum(self, axis=axis, keepdims=keepdims)))

    def any(self, axis=None, **k):
        if axis is None and self.dtype == object:
            return _fold("or", self)
        return np.asarray(_tobool(self)).any(axis=axis)

    def all(self, axis=None, **k):
        if axis is None and self.dtype == object:
            return _fold("and", self)
        return np.asarray(_tobool(self)).all(axis=axis)

    def tolist(self):
        return np.ndarray.tolist(self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError(
            "The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        if self.size == 1:
            return self.reshape(-1)[0]
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __array_wrap__(self, a, context=None, return_scalar=False):
        if a.ndim == 0:
            return a.item()
        return a.view(SymArray) if a.dtype == object else a.view(np.ndarray)

    def squeeze(self, axis=None):
        return np.ndarray.view(np.asarray(self).squeeze(axis), SymArray)

    def __truediv__(self, o):
        return _div(self, o)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = []
        for x in inputs:
            if isinstance(x, np.ndarray):
                x = x.view(np.ndarray)
                if x.dtype.kind in "f":
                    x = sarr(x).view(np.ndarray)
            elif isinstance(x, (float, np.floating)):
                x = S.const(x)
            ins.append(x)
        out = kw.pop("out", None)
        kw.pop("dtype", None)
        if out is not None:
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, np.ndarray) else o for o in out)
        if "where" in kw and isinstance(kw["where"], np.ndarray):
            kw["where"] = np.asarray(kw["where"]).astype(bool)
        if method == "__call__" and ufunc in (np.true_divide, np.floor_divide) and all(
            np.asarray(x).dtype.kind in "iub" for x in ins
        ) and ufunc is np.true_divide:
            ins[0] = sarr(ins[0]).view(np.ndarray)
        if method == "__call__" and ufunc in (np.isnan, np.isinf, np.isfinite):
            a = np.asarray(ins[0])
            f = (lambda v: v.op == "poison") if ufunc is not np.isfinite else (lambda v: v.op != "poison")
            return np.array([f(el(v)) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)
        if method == "__call__" and ufunc is np.square:
            r = np.multiply(ins[0], ins[0], **kw)
        elif method == "__call__" and ufunc is np.hypot:
            r = np.sqrt(ins[0] * ins[0] + ins[1] * ins[1])
        else:
            r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return wrap(r)


def _key(k):
    """masks made of symbolic truth values become concrete masks (forking)"""
    if isinstance(k, np.ndarray) and k.dtype == object:
        return _tobool(k)
    if isinstance(k, tuple):
        return tuple(_key(i) for i in k)
    if isinstance(k, SB):
        return bool(k)
    return k


def _fold(op, a):
    """any/all as one decision"""
    parts = []
    dom = op == "or"
    for v in np.asarray(a).reshape(-1):
        if isinstance(v, S):
            v = v != 0 if v.op != "poison" else True
        if isinstance(v, SB):
            parts.append(v)
        elif bool(v) is dom:
            return dom
    if not parts:
        return not dom
    return bool(SB(op, *parts)) if len(parts) > 1 else bool(parts[0])


def UNINIT():
    return S.poison()


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return r.item()
            return r.view(SymArray)
        if r.dtype.kind == "f":
            return sarr(r)
        return r
    if isinstance(r, (float, np.floating)):
        return S.const(r)
    if isinstance(r, tuple):
        return type(r)(*map(wrap, r)) if hasattr(r, "_fields") else tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def sarr(x, copy=True):
    """anything array-like -> SymArray (0-d allowed)"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            if isinstance(x, SymArray):
                r = x.copy() if copy else x
            else:
                r = x.copy().view(SymArray)
            return r
        a = np.empty(x.shape, dtype=object)
        f = a.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            f[i] = S.const(v.item())
        return a.reshape(x.shape).view(SymArray)
    if isinstance(x, (S, SB)) or np.isscalar(x) or isinstance(x, F):
        a = np.empty((), dtype=object)
        a[()] = el(x)
        return a.view(SymArray)
    # nested sequence
    a = np.array(_nest(x), dtype=object)
    f = a.reshape(-1)
    for i in range(f.size):
        v = f[i]
        if isinstance(v, (list, tuple)):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        f[i] = el(v)
    return f.reshape(a.shape).view(SymArray)


def _nest(x):
    if isinstance(x, (list, tuple)):
        return [_nest(y) for y in x]
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).tolist() if x.ndim else x.item()
    if isinstance(x, range):
        return list(x)
    return x


def has_sym(x):
    if isinstance(x, (S, SB, F)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object or x.dtype.kind == "f"
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return isinstance(x, (float, np.floating))


def _tobool(a):
    a = np.asarray(a)
    if a.dtype == bool:
        return a
    return np.array([bool(v) for v in a.reshape(-1)], dtype=bool).reshape(a.shape)


def vec(f, a):
    a = sarr(a, copy=False)
    r = np.empty(a.shape, dtype=object)
    rf = r.reshape(-1)
    for i, v in enumerate(np.asarray(a).reshape(-1)):
        rf[i] = f(v)
    return wrap(rf.reshape(a.shape))


def _div(a, b):
    if isinstance(a, np.ndarray) and a.dtype != object:
        a = sarr(a)
    return wrap(np.true_divide(a, b))


def _mean(a, axis=None, dtype=None, keepdims=False, **k):
    a = sarr(a, copy=False)
    if axis is None:
        n = a.size
    elif isinstance(axis, tuple):
        n = int(np.prod([a.shape[i] for i in axis]))
    else:
        n = a.shape[axis]
    if n == 0:
        return S.poison()
    s = np.add.reduce(np.asarray(a).reshape(-1)) if axis is None else np.add.reduce(np.asarray(a), axis=axis, keepdims=keepdims)
    return wrap(s / n) if not isinstance(s, np.ndarray) else wrap(s) / S.const(n)


def _argsort1(v):
    idx = list(range(len(v)))
    import functools

    def c(i, j):
        if bool(v[i] < v[j]):
            return -1
        if bool(v[j] < v[i]):
            return 1
        return 0
    return sorted(idx, key=functools.cmp_to_key(c))


def _argsort(a, axis=-1, kind=None, order=None, **k):
    a = np.asarray(a)
    if a.dtype != object:
        return np.argsort(a, axis=axis, kind="stable")
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return np.apply_along_axis(lambda v: np.array(_argsort1(list(v))), axis, a) if a.ndim > 1 else np.array(
        _argsort1(list(a)), dtype=int)


def _argext(a, axis, mx):
    a = np.asarray(a)
    if a.dtype != object:
        return a.argmax(axis) if mx else a.argmin(axis)

    def one(v):
        b = 0
        for i in range(1, len(v)):
            if bool(v[i] > v[b]) if mx else bool(v[i] < v[b]):
                b = i
        return b
    if axis is None or a.ndim == 1:
        return one(list(a.reshape(-1)))
    return np.apply_along_axis(lambda v: one(list(v)), axis, a)


def _max2(a, b):
    a, b = el(a), el(b)
    if a.op == "poison" or b.op == "poison":
        return S.poison()
    return a if a >= b else b


def _min2(a, b):
    a, b = el(a), el(b)
    if a.op == "poison" or b.op == "poison":
        return S.poison()
    return a if a <= b else b


def _bcast(f, *xs):
    arrs = [np.asarray(sarr(x, copy=False)) for x in xs]
    bs = np.broadcast_arrays(*arrs)
    r = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = f(*[b[i] for b in bs])
    return wrap(r)


def _ints(*xs):
    return all(not has_sym(x) and x is not None for x in xs)


def _clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    if _ints(a) and (a_min is None or _ints(a_min)) and (a_max is None or _ints(a_max)):
        return np.clip(a, a_min, a_max)
    if a_min is None and a_max is None:
        raise ValueError("One of max or min must be given")
    r = a
    if a_min is not None:
        r = _bcast(_max2, r, a_min)
    if a_max is not None:
        r = _bcast(_min2, r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


# --------------------------------------------------------------------------- linear algebra
def _rows(m):
    m = sarr(m, copy=False)
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return [list(r) for r in np.asarray(m)]


def det_rows(m):
    n = len(m)
    if n == 0:
        return S.const(1)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    t = S.const(0)
    for j in range(n):
        c = m[0][j]
        if isinstance(c, S) and c.op == "c" and c.a[0] == 0:
            continue
        minor = [r[:j] + r[j + 1:] for r in m[1:]]
        d = det_rows(minor)
        t = t + c * d if j % 2 == 0 else t - c * d
    return t


def _inv(m):
    if isinstance(m, np.ndarray) and m.ndim > 2:
        return sarr([_inv(x) for x in m])
    r = _rows(m)
    n = len(r)
    d = det_rows(r)
    if isinstance(d, S) and d.op == "poison":
        return sarr([[S.poison()] * n for _ in range(n)])
    if not sym.ENG.sure_nonzero(d):
        raise np.linalg.LinAlgError("Singular matrix")
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [row[:j] + row[j + 1:] for k, row in enumerate(r) if k != i]
            c = det_rows(minor)
            out[j][i] = (c if (i + j) % 2 == 0 else -c) / d
    return sarr(out)


def _solve(a, b):
    b = sarr(b, copy=False)
    return wrap(np.dot(_inv(a), b))


def _pinv(a, *args, **k):
    a = sarr(a, copy=False)
    if a.shape[0] == a.shape[1]:
        return _inv(a)
    if a.shape[0] > a.shape[1]:
        return wrap(np.dot(_inv(np.dot(a.T, a)), a.T))
    return wrap(np.dot(a.T, _inv(np.dot(a, a.T))))


def _lstsq(a, b, rcond=None):
    a = sarr(a, copy=False)
    b = sarr(b, copy=False)
    x = wrap(np.dot(_pinv(a), b))
    return x, sarr([]), min(a.shape), sarr([])


def _eigvals(m):
    r = _rows(m)
    if len(r) == 1:
        return sarr([r[0][0]])
    off = all(i == j or (r[i][j].op == "c" and r[i][j].a[0] == 0) for i in range(len(r)) for j in range(len(r)))
    if off:
        return sarr([r[i][i] for i in range(len(r))])
    if len(r) == 2:
        t = r[0][0] + r[1][1]
        d = ((r[0][0] - r[1][1]) ** 2 + 4 * r[0][1] * r[1][0]).sqrt()
        return sarr([(t + d) / 2, (t - d) / 2])
    raise EngineLimit("eigenvalues of a matrix larger than 2x2")


def _cholesky(m):
    r = _rows(m)
    n = len(r)
    L = [[S.const(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = r[i][j]
            for k in range(j):
                s = s - L[i][k] * L[j][k]
            if i == j:
                L[i][j] = s.sqrt()
            else:
                L[i][j] = s / L[j][j]
    return sarr(L)


def _norm(x, ord=None, axis=None, **k):
    x = sarr(x, copy=False)
    if axis is not None and ord in (None, 2) and isinstance(axis, (int, np.integer)):
        s = np.add.reduce(np.asarray(x) ** 2, axis=axis, keepdims=bool(k.get("keepdims")))
        return shim.sqrt(sarr(s)) if isinstance(s, np.ndarray) else s.sqrt()
    if ord not in (None, 2, "fro") or axis is not None or k.get("keepdims"):
        raise EngineLimit("norm variant")
    return np.add.reduce(np.asarray(x).reshape(-1) ** 2).sqrt()


class _NS:
    def __init__(self, real, d):
        self.__dict__.update(d)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return guard(getattr(self.__dict__["_real"], n))


def guard(f):
    """real numpy function whose result is re-wrapped"""
    if isinstance(f, type) or not callable(f):
        return f

    def g(*a, **k):
        if "dtype" in k:
            k["dtype"] = object if is_float_dtype(k["dtype"]) else real_dtype(k["dtype"])
        return wrap(f(*[demote(x) for x in a], **{n: demote(v) for n, v in k.items()}))
    g.__name__ = getattr(f, "__name__", "g")
    return g


def demote(x):
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x.view(SymArray)
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return sarr(x)
    if isinstance(x, (list, tuple)) and has_sym(x) and not any(isinstance(y, np.ndarray) for y in x):
        return sarr(x)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return type(x)(demote(y) for y in x)
    return x


# --------------------------------------------------------------------------- the module
class Random:
    """random numbers are unconstrained inputs"""

    def __init__(self):
        self.log = []

    def _fresh(self, shape, tag):
        W = sym.ENG.world
        return W.fresh_random(shape, tag)

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        mean = sarr(mean)
        shape = () if size is None else (size if isinstance(size, tuple) else (int(size),))
        sym.ENG.world.rng_calls.append(("mvn", mean, sarr(cov), size))
        sym.ENG.world.mvn_args = (np.asarray(mean).reshape(-1), np.asarray(sarr(cov)))
        return self._fresh(shape + (mean.size,), "mvn")

    def normal(self, loc=0, scale=1, size=None):
        r = self._fresh(_shape(size) if size is not None else np.broadcast(np.asarray(loc), np.asarray(scale)).shape, "normal")
        return loc + scale * r

    def randn(self, *s):
        return self._fresh(tuple(s), "randn")

    standard_normal = lambda self, size=None: self._fresh(_shape(size), "randn")

    def uniform(self, low=0, high=1, size=None):
        return self._fresh(_shape(size), "uniform")

    rand = randn

    def seed(self, *a): pass

    def default_rng(self, *a): return self

    def RandomState(self, *a): return self

    def get_state(self): return None

    def set_state(self, s): pass


def _shape(s):
    if s is None:
        return ()
    return tuple(s) if isinstance(s, (tuple, list)) else (int(s),)


class Shim(types.ModuleType):
    def __getattr__(self, n):
        try:
            return guard(getattr(np, n))
        except AttributeError:
            raise AttributeError(f"module 'numpy' has no attribute '{n}'")


shim = Shim("numpy")
shim.ndarray = SymArray
shim.random = Random()
shim.linalg = _NS(np.linalg, dict(inv=_inv, solve=_solve, pinv=_pinv, det=lambda m: det_rows(_rows(m)), lstsq=_lstsq,
                                  eigvals=_eigvals, eigvalsh=_eigvals, cholesky=_cholesky, norm=_norm,
                                  LinAlgError=np.linalg.LinAlgError))


def _new(fillv):
    def f(shape, dtype=None, order="C", **k):
        if is_float_dtype(dtype):
            if isinstance(shape, (S,)):
                raise TypeError("'float' object cannot be interpreted as an integer")
            r = np.empty(shape, dtype=object)
            r[...] = S.const(fillv) if fillv is not None else S.poison()
            return r.view(SymArray)
        return {0: np.zeros, 1: np.ones, None: np.empty}[fillv](shape, real_dtype(dtype))
    return f


shim.zeros = _new(0)
shim.ones = _new(1)
shim.empty = _new(None)


def _full(shape, v, dtype=None, **k):
    if dtype is None and _ints(v):
        return np.full(shape, v)
    if is_float_dtype(dtype):
        r = np.empty(shape, dtype=object)
        s = sarr(v)
        if s.ndim == 0:
            r[...] = s.item()
        else:
            r[...] = np.asarray(s)
        return r.view(SymArray)
    return np.full(shape, v, real_dtype(dtype))


shim.full = _full


def _like(fn):
    def f(a, *args, **k):
        a = np.asarray(a) if isinstance(a, np.ndarray) else sarr(a)
        dt = k.pop("dtype", None)
        shape = k.pop("shape", a.shape)
        if fn == "full":
            v = args[0]
            if dt is None and a.dtype != object and a.dtype.kind in "iub":
                return np.full(shape, int(v))
            return _full(shape, v, dt if dt is not None else float)
        if dt is None and a.dtype.kind in "iub":
            return getattr(np, fn)(shape, a.dtype)
        return getattr(shim, fn)(shape, dt)
    return f


for _n in ("zeros", "ones", "empty", "full"):
    setattr(shim, _n + "_like", _like(_n))


def _array(x, dtype=None, copy=True, ndmin=0, **k):
    if dtype is None and isinstance(x, np.ndarray) and x.dtype.kind in "iubUS":
        r = np.array(x, copy=copy)
    elif dtype is not None and not is_float_dtype(dtype):
        if has_sym(x):
            r = sarr(x).astype(dtype)
        else:
            r = np.array(x, dtype=real_dtype(dtype))
    elif has_sym(x) or dtype is not None or (isinstance(x, (list, tuple)) and len(x) == 0):
        r = sarr(x, copy=copy)
    else:
        r = np.array(x)
        if r.dtype.kind == "f":
            r = sarr(r)
        elif r.dtype == object:
            r = _objarr(x, r)
    while r.ndim < ndmin:
        r = r[np.newaxis, ...]
    return r


def _objarr(x, r):
    # list of arrays / Nones / other python objects
    if any(isinstance(v, (S, np.ndarray)) for v in r.reshape(-1)):
        return sarr(x)
    return r


shim.array = _array
shim.asarray = lambda x, dtype=None, **k: x if isinstance(x, np.ndarray) and (
    dtype is None or (is_float_dtype(dtype) and x.dtype == object)) else _array(x, dtype)
shim.asanyarray = shim.asarray
shim.ascontiguousarray = shim.asarray
shim.copy = lambda x, **k: _array(x)


def _atleast(n):
    f = getattr(np, f"atleast_{n}d")

    def g(*xs):
        r = []
        for x in xs:
            if not isinstance(x, np.ndarray):
                x = _array(x)
            if x.ndim >= n:
                r.append(x)
            elif x.ndim == 0:
                r.append(wrap(x.reshape((1,) * n)))
            else:
                y = f(x.view(np.ndarray))
                r.append(y.view(SymArray) if y.dtype == object else y)
        return r[0] if len(r) == 1 else r
    return g


for _n in (1, 2, 3):
    setattr(shim, f"atleast_{_n}d", _atleast(_n))


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num) if not isinstance(num, S) else num.__index__()
    div = num - 1 if endpoint else num
    a, b = sarr(start), sarr(stop)
    step = (b - a) / S.const(div) if div > 0 else S.poison()
    rows = []
    for i in range(num):
        if i == 0:
            rows.append(a + 0 * b if False else (a * S.const(1) if a.ndim else a.item()))
        elif endpoint and i == num - 1:
            rows.append(b * S.const(1) if b.ndim else b.item())
        else:
            rows.append(a + step * S.const(i))
    if a.ndim == 0 and b.ndim == 0:
        r = sarr([el(x) for x in rows]) if rows else shim.zeros((0,))
    else:
        sh = np.broadcast_shapes(a.shape, b.shape)
        r = np.empty((num,) + sh, dtype=object)
        for i, x in enumerate(rows):
            r[i] = np.asarray(x)
        r = r.view(SymArray)
    return (r, step) if retstep else r


shim.linspace = _linspace


def _arange(*a, dtype=None, **k):
    if _ints(*a) and (dtype is None or not is_float_dtype(dtype) or True):
        r = np.arange(*a)
        return sarr(r) if dtype is not None and is_float_dtype(dtype) else r
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    start, stop, step = el(start), el(stop), el(step)
    n = max(0, ((stop - start) / step).__ceil__())
    if n > 500:
        raise EngineLimit("long arange")
    return sarr([start + step * S.const(i) for i in range(n)]) if n else shim.zeros((0,))


shim.arange = _arange


def _stack(name):
    f = getattr(np, name)

    def g(xs, *a, **k):
        k.pop("dtype", None)
        xs = [x if isinstance(x, np.ndarray) else _array(x) for x in xs]
        if any(x.dtype == object for x in xs):
            xs = [sarr(x).view(np.ndarray) for x in xs]
        return wrap(f(xs, *a, **k))
    return g


for _n in ("concatenate", "column_stack", "vstack", "hstack", "stack", "dstack", "row_stack"):
    setattr(shim, _n, _stack(_n))


def _append(a, v, axis=None):
    a = _array(a)
    v = _array(v)
    if a.dtype == object or v.dtype == object:
        a, v = sarr(a), sarr(v)
    if axis is None:
        return shim.concatenate((a.reshape(-1), v.reshape(-1)))
    return shim.concatenate((a, v), axis=axis)


shim.append = _append
shim.mean = _mean
shim.sum = lambda a, axis=None, **k: sarr(a, copy=False).sum(axis=axis, **{x: y for x, y in k.items() if x == "keepdims"}) if has_sym(a) else np.sum(a, axis=axis, **k)


def _cum(op):
    def f(a, axis=None, **k):
        if not has_sym(a):
            return getattr(np, "cumsum" if op is np.add else "cumprod")(a, axis=axis)
        a = np.asarray(sarr(a))
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        return wrap(op.accumulate(a, axis=axis))
    return f


shim.cumsum = _cum(np.add)
shim.cumprod = _cum(np.multiply)


def _prod(a, axis=None, **k):
    if not has_sym(a):
        return np.prod(a, axis=axis)
    a = np.asarray(sarr(a))
    return wrap(np.multiply.reduce(a.reshape(-1) if axis is None else a, axis=axis or 0))


shim.prod = _prod


def _var(a, axis=None, ddof=0, **k):
    a = sarr(a, copy=False)
    m = _mean(a, axis, keepdims=True) if axis is not None else _mean(a)
    d = a - m
    s = (d * d).sum(axis=axis)
    n = a.size if axis is None else a.shape[axis]
    return s / S.const(n - ddof)


shim.var = _var
shim.std = lambda a, axis=None, ddof=0, **k: wrap(np.sqrt(_var(a, axis, ddof)))


def _average(a, axis=None, weights=None, returned=False, **k):
    a = sarr(a, copy=False)
    if weights is None:
        return _mean(a, axis)
    w = sarr(weights, copy=False)
    if a.shape != w.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        if w.ndim != 1:
            raise TypeError("1D weights expected when shapes of a and weights differ.")
        if w.shape[0] != a.shape[axis]:
            raise ValueError("Length of weights not compatible with specified axis.")
        wb = np.broadcast_to(np.asarray(w), (a.ndim - 1) * (1,) + w.shape)
        wb = wb.swapaxes(-1, axis)
    else:
        wb = np.asarray(w)
    wb = np.broadcast_to(wb, a.shape)
    ra = np.asarray(a)
    if axis is None:
        scl = np.add.reduce(wb.reshape(-1))
        num = np.add.reduce((ra * wb).reshape(-1))
    else:
        scl = np.add.reduce(wb, axis=axis)
        num = np.add.reduce(ra * wb, axis=axis)
    if any(bool(el(x) == 0) for x in np.atleast_1d(np.asarray(scl, dtype=object)).reshape(-1)[:1]):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = wrap(num) / wrap(scl)
    return (r, scl) if returned else r


shim.average = _average


def _ext(mx):
    f2 = _max2 if mx else _min2

    def f(a, axis=None, **k):
        if not has_sym(a):
            return (np.max if mx else np.min)(a, axis=axis)
        a = np.asarray(sarr(a, copy=False))

        def red(v):
            v = list(v)
            if not v:
                raise ValueError("zero-size array to reduction operation")
            r = v[0]
            for x in v[1:]:
                r = f2(r, x)
            return r
        if axis is None:
            return red(a.reshape(-1))
        a = np.moveaxis(a, axis, 0)
        out = np.empty(a.shape[1:], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = red(a[(slice(None),) + i])
        return wrap(out)
    return f


shim.max = shim.amax = shim.nanmax = _ext(True)
shim.min = shim.amin = shim.nanmin = _ext(False)
SymArray.max = lambda self, axis=None, **k: _ext(True)(self, axis)
SymArray.min = lambda self, axis=None, **k: _ext(False)(self, axis)
shim.ptp = lambda a, axis=None: shim.max(a, axis) - shim.min(a, axis)
SymArray.ptp = lambda self, axis=None: shim.ptp(self, axis)
shim.maximum = lambda a, b, **k: _bcast(_max2, a, b) if not _ints(a, b) else np.maximum(a, b)
shim.minimum = lambda a, b, **k: _bcast(_min2, a, b) if not _ints(a, b) else np.minimum(a, b)
shim.fmax, shim.fmin = shim.maximum, shim.minimum
shim.clip = _clip
shim.argsort = _argsort
shim.argmax = lambda a, axis=None, **k: _argext(a if isinstance(a, np.ndarray) else _array(a), axis, True)
shim.argmin = lambda a, axis=None, **k: _argext(a if isinstance(a, np.ndarray) else _array(a), axis, False)


def _sort(a, axis=-1, **k):
    a = sarr(a)
    if a.ndim == 1:
        return a[_argsort(a)]
    idx = _argsort(a, axis)
    return wrap(np.take_along_axis(np.asarray(a), idx, axis))


shim.sort = _sort
shim.any = lambda a, axis=None, **k: _fold("or", _bools(a)) if axis is None else np.any(_tobool(_bools(a)), axis=axis)
shim.all = lambda a, axis=None, **k: _fold("and", _bools(a)) if axis is None else np.all(_tobool(_bools(a)), axis=axis)


def _bools(a):
    if isinstance(a, np.ndarray):
        return a
    if isinstance(a, (SB, S, bool)):
        r = np.empty(1, dtype=object)
        r[0] = a
        return r
    if isinstance(a, (list, tuple)):
        f = np.empty(len(a), dtype=object)
        for i, v in enumerate(a):
            f[i] = v
        return f
    return np.asarray(a)



def _isscalar(x):
    if isinstance(x, S):
        return True
    return np.isscalar(x)


shim.isscalar = _isscalar


def _u1(name):
    f = getattr(np, name)

    def g(x, *a, **k):
        if "out" in k and k["out"] is not None:
            k["out"][...] = g(x)
            return k["out"]
        k.pop("dtype", None)
        if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "iub" and name in ("abs", "absolute", "sign", "negative", "square"):
            return f(x)
        if isinstance(x, (int, np.integer)) and name in ("abs", "absolute", "sign", "negative", "square"):
            return f(x)
        return vec(lambda v: getattr(v, name)(), x)
    return g


for _n in ("exp", "log", "sqrt", "log10", "log2", "log1p", "expm1", "exp2", "sin", "cos", "tanh", "floor", "ceil",
           "rint", "trunc", "square", "negative", "reciprocal", "conjugate"):
    setattr(shim, _n, _u1(_n))
shim.abs = shim.absolute = shim.fabs = lambda x, **k: np.abs(x) if _ints(x) else vec(abs, x)
shim.sign = lambda x, **k: np.sign(x) if _ints(x) else vec(
    lambda v: S.const(1) if v > 0 else (S.const(-1) if v < 0 else S.const(0)), x)
shim.heaviside = lambda x, h: vec(lambda v: S.const(1) if v > 0 else (S.const(0) if v < 0 else el(h)), x)
shim.round = shim.around = shim.round_ = lambda a, decimals=0, **k: vec(lambda v: round(v, decimals) if decimals else S.const(round(v)), a)
shim.isnan = lambda x: vecb(lambda v: v.op == "poison", x)
shim.isinf = lambda x: vecb(lambda v: False, x)
shim.isfinite = lambda x: vecb(lambda v: v.op != "poison", x)


def vecb(f, a):
    a = sarr(a, copy=False)
    r = np.array([f(v) for v in np.asarray(a).reshape(-1)], dtype=bool).reshape(a.shape)
    return r if r.ndim else bool(r)


def _b2(name):
    f = getattr(np, name)

    def g(a, b, *rest, **k):
        out = k.pop("out", None)
        k.pop("dtype", None)
        if _ints(a, b) and name not in ("divide", "true_divide"):
            return f(a, b)
        a2 = a if isinstance(a, np.ndarray) and a.dtype == object else sarr(a)
        b2 = b if isinstance(b, np.ndarray) and b.dtype == object else sarr(b)
        if "where" in k:
            k["where"] = np.asarray(k["where"]).astype(bool)
            r = wrap(f(np.asarray(a2), np.asarray(b2), out=np.asarray(out) if out is not None else None, **k))
            return out if out is not None else r
        r = wrap(f(np.asarray(a2), np.asarray(b2)))
        if out is not None:
            out[...] = r
            return out
        return r
    return g


for _n in ("add", "subtract", "multiply", "divide", "true_divide", "power", "float_power", "mod", "remainder", "floor_divide"):
    setattr(shim, _n, _b2("power" if _n == "float_power" else _n))


def _cmpf(op):
    import operator
    o = getattr(operator, op)

    def f(a, b):
        if _ints(a, b):
            return o(np.asarray(a), np.asarray(b)) if isinstance(a, (list, np.ndarray)) else o(a, b)
        arrs = np.broadcast_arrays(np.asarray(sarr(a)), np.asarray(sarr(b)))
        r = np.empty(arrs[0].shape, dtype=bool)
        for i in np.ndindex(r.shape):
            r[i] = bool(o(arrs[0][i], arrs[1][i]))
        return r if r.ndim else bool(r)
    return f


for _n, _o in (("greater", "gt"), ("greater_equal", "ge"), ("less", "lt"), ("less_equal", "le"), ("equal", "eq"), ("not_equal", "ne")):
    setattr(shim, _n, _cmpf(_o))


def _isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    rt, at = S.const(rtol), S.const(atol)
    arrs = np.broadcast_arrays(np.asarray(sarr(a)), np.asarray(sarr(b)))
    r = np.empty(arrs[0].shape, dtype=bool)
    for i in np.ndindex(r.shape):
        r[i] = bool(abs(arrs[0][i] - arrs[1][i]) <= at + rt * abs(arrs[1][i]))
    return r if r.ndim else bool(r)


shim.isclose = _isclose
shim.allclose = lambda a, b, rtol=1e-05, atol=1e-08, **k: bool(np.all(_isclose(a, b, rtol, atol)))


def _array_equal(a, b, **k):
    a, b = _array(a), _array(b)
    return a.shape == b.shape and bool(np.all(_cmpf("eq")(a, b)))


shim.array_equal = _array_equal


def _where(c, *xy):
    c = _tobool(_array(c))
    if not xy:
        return np.where(c)
    x, y = xy
    if _ints(x, y):
        return np.where(c, x, y)
    return wrap(np.where(c, np.asarray(sarr(x)), np.asarray(sarr(y))))


shim.where = _where


def _eye(n, m=None, k=0, dtype=None, **kw):
    r = np.eye(n, m, k)
    return sarr(r.astype(int)) if is_float_dtype(dtype) else r.astype(real_dtype(dtype))


shim.eye = _eye
shim.identity = lambda n, dtype=None, **k: _eye(n, dtype=dtype)


def _diag(v, k=0):
    v = _array(v)
    if v.dtype != object:
        return np.diag(v, k)
    if v.ndim == 1:
        n = v.size + abs(k)
        r = shim.zeros((n, n))
        for i in range(v.size):
            r[i + max(0, -k), i + max(0, k)] = v[i]
        return r
    d = v.diagonal(k)
    return d.view(SymArray)


shim.diag = _diag
shim.diagflat = lambda v, k=0: _diag(_array(v).reshape(-1), k)


def _dot(a, b, out=None):
    a, b = (x if isinstance(x, np.ndarray) else _array(x) for x in (a, b))
    if a.dtype == object or b.dtype == object:
        a, b = np.asarray(sarr(a, copy=False)), np.asarray(sarr(b, copy=False))
    r = np.dot(a, b)
    if isinstance(r, np.ndarray) and r.dtype == object and r.size and a.shape[-1] == 0:
        r[...] = S.const(0)
    return wrap(r)


shim.dot = _dot
shim.matmul = lambda a, b, **k: wrap(np.matmul(np.asarray(sarr(a)), np.asarray(sarr(b))))
shim.inner = lambda a, b: wrap(np.inner(np.asarray(sarr(a)), np.asarray(sarr(b))))
shim.outer = lambda a, b, **k: wrap(np.multiply.outer(np.asarray(sarr(a)).reshape(-1), np.asarray(sarr(b)).reshape(-1)))
shim.vdot = lambda a, b: shim.dot(sarr(a).reshape(-1), sarr(b).reshape(-1))


def _einsum(sub, *ops, **k):
    return wrap(np.einsum(sub, *[np.asarray(sarr(o)) for o in ops]))


shim.einsum = _einsum


def _convolve(a, v, mode="full"):
    a, v = list(np.asarray(sarr(a))), list(np.asarray(sarr(v)))
    n, m = len(a), len(v)
    r = []
    for i in range(n + m - 1):
        t = S.const(0)
        for j in range(m):
            if 0 <= i - j < n:
                t = t + a[i - j] * v[j]
        r.append(t)
    r = sarr(r)
    if mode == "full":
        return r
    if mode == "same":
        L = max(n, m)
        s = (len(r) - L) // 2
        return r[s:s + L]
    L = max(n, m) - min(n, m) + 1
    s = min(n, m) - 1
    return r[s:s + L]


shim.convolve = _convolve


def _gradient(f, *varargs, axis=None, edge_order=1):
    f = sarr(f, copy=False)
    h = varargs[0] if varargs else 1
    ax = 0 if axis is None else axis
    if f.ndim > 1 and axis is None:
        raise EngineLimit("gradient over all axes")
    g = np.asarray(np.moveaxis(np.asarray(f), ax, 0))
    n = g.shape[0]
    out = np.empty(g.shape, dtype=object)
    hs = None
    if isinstance(h, np.ndarray) and h.ndim == 1:
        hs = [h[i + 1] - h[i] for i in range(n - 1)]
    for i in range(n):
        if hs is None:
            if i == 0:
                out[i] = (g[1] - g[0]) / h if edge_order == 1 else (-3 * g[0] + 4 * g[1] - g[2]) / (2 * h)
            elif i == n - 1:
                out[i] = (g[-1] - g[-2]) / h if edge_order == 1 else (3 * g[-1] - 4 * g[-2] + g[-3]) / (2 * h)
            else:
                out[i] = (g[i + 1] - g[i - 1]) / (2 * h)
        else:
            if i == 0:
                out[i] = (g[1] - g[0]) / hs[0]
            elif i == n - 1:
                out[i] = (g[-1] - g[-2]) / hs[-1]
            else:
                a, b = hs[i - 1], hs[i]
                out[i] = (a * a * g[i + 1] + (b * b - a * a) * g[i] - b * b * g[i - 1]) / (a * b * (a + b))
    return wrap(np.moveaxis(out, 0, ax))


shim.gradient = _gradient
shim.interp = None


def _interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = sarr(xp), sarr(fp)

    def one(v):
        if v <= xp[0]:
            return fp[0] if left is None or bool(v == xp[0]) else el(left)
        if v >= xp[-1]:
            return fp[-1] if right is None or bool(v == xp[-1]) else el(right)
        for i in range(len(xp) - 1):
            if v <= xp[i + 1]:
                return fp[i] + (v - xp[i]) * (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
    return vec(one, x)


shim.interp = _interp


def _searchsorted(a, v, side="left", **k):
    a = list(np.asarray(sarr(a)))

    def one(x):
        n = 0
        for y in a:
            if bool(y < x) if side == "left" else bool(y <= x):
                n += 1
            else:
                break
        return n
    if isinstance(v, (np.ndarray, list)):
        return np.array([one(x) for x in sarr(v)], dtype=int)
    return one(el(v))


shim.searchsorted = _searchsorted


def _diff(a, n=1, axis=-1, **k):
    if not has_sym(a):
        return np.diff(a, n, axis)
    return wrap(np.diff(np.asarray(sarr(a)), n, axis))


shim.diff = _diff
shim.tile = lambda A, reps: wrap(np.tile(np.asarray(sarr(A)) if has_sym(A) else A, reps))
shim.repeat = lambda a, r, axis=None: wrap(np.repeat(np.asarray(sarr(a)) if has_sym(a) else a, r, axis))
shim.squeeze = lambda a, axis=None: (a if isinstance(a, np.ndarray) else _array(a, copy=False)).squeeze(axis)
shim.reshape = lambda a, s, *r, **k: _array(a, copy=False).reshape(s, *r) if not isinstance(a, np.ndarray) else a.reshape(s, *r)
shim.ravel = lambda a, *r: (a if isinstance(a, np.ndarray) else _array(a)).ravel(*r)
shim.nan = None
shim.fill_diagonal = None


def _fill_diagonal(a, v, wrap=False):
    vs = sarr(v)
    for i in range(min(a.shape)):
        a[i, i] = vs.item() if vs.ndim == 0 else vs[i % vs.size]


shim.fill_diagonal = _fill_diagonal
shim.ndim = lambda a: np.ndim(a) if not isinstance(a, S) else 0
shim.shape = lambda a: () if isinstance(a, S) else np.shape(a)
shim.size = lambda a, axis=None: 1 if isinstance(a, S) else np.size(a, axis)
shim.iscomplexobj = lambda a: False
shim.isreal = lambda a: True
shim.real = lambda a: a
shim.logical_and = lambda a, b: np.logical_and(_tobool(_array(a)), _tobool(_array(b)))
shim.logical_or = lambda a, b: np.logical_or(_tobool(_array(a)), _tobool(_array(b)))
shim.logical_not = lambda a: np.logical_not(_tobool(_array(a)))
shim.count_nonzero = lambda a, axis=None: np.count_nonzero(_tobool(_array(a)), axis=axis)
shim.nonzero = lambda a: np.nonzero(_tobool(_array(a)))
shim.flatnonzero = lambda a: np.flatnonzero(_tobool(_array(a)))
shim.vectorize = lambda f, **k: (lambda *xs: _bcast(f, *xs))
shim.trapz = lambda y, x=None, dx=1.0, **k: _trapz(y, x, dx)


def _trapz(y, x, dx):
    y = sarr(y)
    t = S.const(0)
    for i in range(len(y) - 1):
        h = dx if x is None else x[i + 1] - x[i]
        t = t + (y[i] + y[i + 1]) * h / 2
    return t


def _allpos(x):
    return x


def _savetxt(fname, X, *a, **k):
    sym.ENG.world.fs.savetxt(fname, X, *a, **k)


def _loadtxt(fname, *a, **k):
    return sym.ENG.world.fs.loadtxt(fname, *a, **k)


shim.savetxt = _savetxt
shim.loadtxt = _loadtxt
for _n in ("pi", "e", "inf", "newaxis", "int64", "int32", "integer", "bool_", "number", "dtype", "s_", "c_", "r_",
           "errstate", "ComplexWarning", "iterable", "ndindex", "ndenumerate", "vectorize", "generic", "intp",
           "set_printoptions", "finfo", "iinfo", "seterr", "printoptions"):
    if _n not in ("vectorize",) and hasattr(np, _n):
        setattr(shim, _n, getattr(np, _n))


class _F64(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (S, float, np.floating))

    def __call__(cls, x=0):
        return sym_float(x)


class float64(metaclass=_F64):
    pass


shim.float64 = float64
shim.float32 = float64
shim.floating = float64


# --------------------------------------------------------------------------- builtins
class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (S, float))

    def __call__(cls, x=0):
        if isinstance(x, S):
            return x
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return el(x.reshape(-1)[0])
        if isinstance(x, str):
            x = float(x)
        return S.const(x) if not isinstance(x, float) or x == x and abs(x) != float("inf") else x


class sym_float(metaclass=_FM):
    fromhex = float.fromhex


class _CM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, complex)


class sym_complex(metaclass=_CM):
    pass


class _IM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, S):
            return x.__int__()
        if isinstance(x, np.ndarray) and x.dtype == object:
            return el(x).__int__()
        return int(x, *a)


class sym_int(metaclass=_IM):
    pass


sym_bool = bool


def sym_isinstance(x, t):
    def fix(u):
        if isinstance(u, tuple):
            return tuple(fix(v) for v in u)
        return u
    if isinstance(t, tuple):
        return any(sym_isinstance(x, u) for u in t)
    if isinstance(x, S):
        if t in (float, numbers.Number, numbers.Real, sym_float, np.floating, np.float64, np.number, object, float64):
            return True
        return isinstance(x, t)
    return isinstance(x, t)


class MathShim(types.ModuleType):
    def __getattr__(self, n):
        f = getattr(_math, n)
        if not callable(f):
            return S.const(f) if isinstance(f, float) else f

        def g(*a):
            if any(has_sym(x) for x in a):
                raise EngineLimit(f"math.{n} of a symbolic value")
            return f(*a)
        return g


mshim = MathShim("math")


def _domain(f):
    def g(x):
        r = f(el(x))
        if isinstance(r, S) and r.op == "poison":
            raise ValueError("math domain error")
        return r
    return g


mshim.exp = lambda x: el(x).exp()
mshim.log = lambda x, b=None: _domain(lambda v: v.log())(x) if b is None else el(x).log() / el(b).log()
mshim.log10 = _domain(lambda v: v.log10())
mshim.log2 = _domain(lambda v: v.log2())
mshim.sqrt = _domain(lambda v: v.sqrt())
mshim.pow = lambda x, y: el(x) ** el(y)
mshim.floor = lambda x: _math.floor(x) if isinstance(x, int) else el(x).__floor__()
mshim.ceil = lambda x: _math.ceil(x) if isinstance(x, int) else el(x).__ceil__()
mshim.fabs = lambda x: abs(el(x))
mshim.sin = lambda x: el(x).sin()
mshim.cos = lambda x: el(x).cos()
mshim.isnan = lambda x: el(x).op == "poison"
mshim.isinf = lambda x: False
mshim.isfinite = lambda x: el(x).op != "poison"
mshim.isclose = lambda a, b, rel_tol=1e-09, abs_tol=0.0: bool(
    abs(el(a) - el(b)) <= _max2(S.const(rel_tol) * _max2(abs(el(a)), abs(el(b))), S.const(abs_tol)))
mshim.prod = lambda xs, start=1: _red(lambda a, b: a * b, xs, start)
mshim.fsum = lambda xs: _red(lambda a, b: a + b, xs, 0)
mshim.hypot = lambda *a: _red(lambda p, q: p + q * q, a, 0).sqrt()


def _red(f, xs, r):
    for x in xs:
        r = f(r, x)
    return r
