"""The C++ sources of /repo, compiled on every run: once with symbolic reals in place of double (all arithmetic and every
comparison of the C++ code is done by the symbolic engine), once as they are (replays of counterexamples and path witnesses)."""
import ctypes as C
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction as F

import numpy as np

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cpp")
ENV = "VERIF_CPPDIR"


class CppError(Exception):
    """the C++ code threw an exception or an assertion failed"""


class BuildError(Exception):
    pass


def sources(repo):
    out = []
    for p, dirs, files in os.walk(os.path.join(repo, "src")):
        for f in sorted(files):
            if f.endswith((".cpp", ".cc", ".cxx")):
                with open(os.path.join(p, f), errors="replace") as fh:
                    if " main(" not in fh.read():
                        out.append(os.path.join(p, f))
    sim = os.path.join(repo, "demos", "robot", "runSimulationThrowBall.cpp")
    return out + ([sim] if os.path.exists(sim) else []) + [os.path.join(HERE, "glue.cpp")]


def build(repo=None):
    """compiles both libraries into a scratch directory; its path goes to the environment (workers, replays)"""
    if os.environ.get(ENV):
        return os.environ[ENV]
    repo = repo or os.environ.get("VERIF_REPO", "/repo")
    d = tempfile.mkdtemp(prefix="verif_cpp_")
    jobs = []
    for kind, flags in (("sym", ["-DVERIF_SYM", "-O0", "-finstrument-functions",
                                 "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,engine/cpp"]), ("real", ["-O1"])):
        for s in sources(repo):
            o = os.path.join(d, kind + "_" + os.path.basename(s) + ".o")
            jobs.append((o, ["g++", "-std=gnu++17", "-fPIC", "-w", *flags, "-DREALTIME_CHECKS", "-include", os.path.join(HERE, "pre.hpp"),
                             "-I" + os.path.join(repo, "src"), "-I" + os.path.join(repo, "demos", "robot"), "-c", s, "-o", o]))
    jobs.sort(key=lambda j: -("glue" in j[0]))

    def one(j):
        return subprocess.run(j[1], capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, jobs))
    bad = [(j, r) for j, r in zip(jobs, rs) if r.returncode]
    if bad:
        shutil.rmtree(d, ignore_errors=True)
        raise BuildError("\n".join(j[1][-3] + ":\n" + "\n".join([x for x in r.stderr.splitlines() if "error" in x][:5]) for j, r in bad))
    for kind in ("sym", "real"):
        r = subprocess.run(["g++", "-shared", "-Wl,-Bsymbolic", *["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "posix_memalign", "_Znwm", "_Znam")], "-o", os.path.join(d, kind + ".so")] + [j[0] for j in jobs if os.path.basename(j[0]).startswith(kind)] +
                           ["-lboost_filesystem", "-lboost_system", "-ldl"], capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise BuildError(r.stderr[-1000:])
    for j in jobs:
        os.unlink(j[0])
    os.environ[ENV] = d
    return d


def cleanup():
    d = os.environ.pop(ENV, None)
    if d:
        shutil.rmtree(d, ignore_errors=True)


class Handle(int):
    pass


class SymCB(C.Structure):
    T = dict(cst=C.CFUNCTYPE(C.c_int, C.c_double), fresh=C.CFUNCTYPE(C.c_int), bin=C.CFUNCTYPE(C.c_int, C.c_int, C.c_int, C.c_int),
             un=C.CFUNCTYPE(C.c_int, C.c_int, C.c_int), cmp=C.CFUNCTYPE(C.c_int, C.c_int, C.c_int, C.c_int), flr=C.CFUNCTYPE(C.c_int, C.c_int),
             tok=C.CFUNCTYPE(C.c_int, C.c_char_p), uf=C.CFUNCTYPE(C.c_int, C.c_char_p, C.c_int, C.POINTER(C.c_int)))
    _fields_ = list(T.items())


class RealCB(C.Structure):
    T = dict(uf=C.CFUNCTYPE(C.c_double, C.c_char_p, C.c_int, C.POINTER(C.c_double)))
    _fields_ = list(T.items())


_LIB = {}       # one library and one set of callbacks per process


class State:
    W = None
    exc = None
    nodes = []
    ids = {}
    consts = []     # values of constants: their ids stay valid for the life of the process (static variables of the C++ code)
    const_ids = {}
    const_nodes = {}


CONST = 10 ** 9


class Nodes:
    def __getitem__(self, i):
        if i >= CONST:
            from engine.sym import S
            s = State.const_nodes.get(i)
            if s is None:
                s = State.const_nodes[i] = S.const(State.consts[i - CONST])
            return s
        return State.nodes[i]


NODES = Nodes()


def _guard(f, bad):
    def g(*a):
        if State.exc is not None:
            return bad
        try:
            return f(*a)
        except BaseException as e:      # noqa: the engine ends paths with exceptions; they cross the C++ frames as a C++ exception
            State.exc = e
            return bad
    return g


def node(s):
    i = State.ids.get(id(s))
    if i is None:
        i = State.ids[id(s)] = len(State.nodes)
        State.nodes.append(s)
    return i


def _sym_callbacks():
    from engine.sym import S
    def cst(c):
        c = float(c)
        i = State.const_ids.get(c)
        if i is None:
            i = State.const_ids[c] = CONST + len(State.consts)
            State.consts.append(c)
        return i

    def fresh():
        W = State.W
        W._ng = getattr(W, "_ng", 0) + 1
        return node(W.var(f"uninitialised{W._ng}"))

    def binop(op, a, b):
        x, y = NODES[a], NODES[b]
        o = chr(op)
        if o in "DG":       # written to a file with so many decimals / digits
            from engine.sym import S
            n = int(y.a[0])
            if x.op == "c" or n > 12:
                return a
            r = F(1, 2 * 10 ** n) if o == "D" else F(1, 2 * 10 ** max(0, n - 1))
            e = State.W.fresh_between(-r, r)
            return node(x + e if o == "D" else x * (1 + e))
        return node(x + y if o == "+" else x - y if o == "-" else x * y if o == "*" else x / y if o == "/" else x ** y)

    def un(op, a):
        x = NODES[a]
        o = chr(op)
        return node({"-": lambda: -x, "e": x.exp, "L": x.log, "s": x.sqrt, "a": lambda: abs(x), "c": x.cos, "S": x.sin, "f": x.floor,
                     "C": x.ceil, "r": x.rint, "h": x.tanh, "t": x.trunc}[o]())

    def cmp(op, a, b):
        x, y = NODES[a], NODES[b]
        o = chr(op)
        if x.op == "poison" or y.op == "poison":
            return int(o == "n")
        return int(bool(x < y if o == "<" else x <= y if o == "l" else x > y if o == ">" else x >= y if o == "g" else x == y if o == "=" else x != y))

    def flr(a):
        x = NODES[a]
        return int(x.a[0]) if x.op == "c" else int(x)

    def tok(s):
        s = s.decode()
        if not s.startswith("@S:"):
            raise ValueError("not a number in the json: " + s)
        s = s[3:]
        return node(State.W.loader.json.tokens[int(s[1:])]) if s.startswith("P") else int(s)

    def uf(name, n, a):
        return node(State.W.uf(name.decode(), *[NODES[a[i]] for i in range(n)]))
    return dict(cst=cst, fresh=fresh, bin=binop, un=un, cmp=cmp, flr=flr, tok=tok, uf=uf)


def _real_callbacks():
    def uf(name, n, a):
        return float(State.W.uf(name.decode(), *[a[i] for i in range(n)]))
    return dict(uf=uf)


def lib(sym):
    kind = "sym" if sym else "real"
    if kind not in _LIB:
        d = build()
        L = C.CDLL(os.path.join(d, kind + ".so"))
        L.verif_handle.restype = C.c_long
        for f in ("verif_text", "verif_error", "verif_functions"):
            getattr(L, f).restype = C.c_char_p
        T = SymCB if sym else RealCB
        bad = {k: -99 for k in T.T} if sym else {"uf": float("nan")}
        fs = {k: T.T[k](_guard(f, bad[k])) for k, f in (_sym_callbacks() if sym else _real_callbacks()).items()}
        cb = T(**fs)
        L.verif_init(C.byref(cb))
        _LIB[kind] = (L, cb, fs)
    return _LIB[kind][0]


class Cpp:
    """W.cpp(command, *arguments): numbers, vectors and matrices are data; Handles are objects; str are texts"""

    def __init__(self, W):
        self.W = W
        self.L = lib(W.symbolic)
        self.dt = C.c_int if W.symbolic else C.c_double
        self.heap = 0
        State.W = W
        State.exc = None
        if W.symbolic:
            State.nodes.clear()
            State.ids.clear()
            State.const_nodes.clear()

    def __call__(self, cmd, *args):
        W = self.W
        if W.symbolic:
            from engine.sym import S
        else:
            S = float
        State.W = W
        State.exc = None
        hs, ts, dims, data = [], [], [], []
        for a in args:
            if isinstance(a, Handle):
                hs.append(int(a))
            elif a is None:
                hs.append(0)
            elif isinstance(a, str):
                ts.append(a.encode())
            else:
                if isinstance(a, S) or isinstance(a, (int, float, F)):
                    a = [[a]]
                x = np.asarray(W.np.array(a))
                x = x.reshape((x.size, 1)) if x.ndim < 2 else x
                dims += [x.shape[0], x.shape[1]]
                for v in x.reshape(-1):
                    data.append(node(S.lift(v)) if W.symbolic else float(v))
        r = self.L.verif_call(cmd.encode(), len(hs), (C.c_long * max(1, len(hs)))(*hs), len(ts), (C.c_char_p * max(1, len(ts)))(*ts),
                              len(dims) // 2, (C.c_int * max(1, len(dims)))(*dims), (self.dt * max(1, len(data)))(*data))
        self.heap = self.L.verif_heap()
        if State.exc is not None:
            e, State.exc = State.exc, None
            raise e
        if r == 1:
            raise CppError(self.L.verif_error().decode())
        if r == 2:
            raise CppError("abandoned")
        out = []
        for i in range(self.L.verif_n_out()):
            n, m, k = self.L.verif_rows(i), self.L.verif_cols(i), self.L.verif_kind(i)
            buf = (self.dt * max(1, n * m))()
            self.L.verif_get(i, buf)
            vs = [(NODES[self._id(buf[j])] if W.symbolic else buf[j]) for j in range(n * m)]
            if k == 2:
                out.append(vs[0])
                continue
            x = W.arr(vs) if vs else W.np.zeros((0,))
            out.append(x.reshape((n,)) if k == 1 else x.reshape((n, m)))
        for i in range(self.L.verif_n_handles()):
            out.append(Handle(self.L.verif_handle(i)))
        t = self.L.verif_text().decode()
        if t:
            out.append(t)
        return out[0] if len(out) == 1 else tuple(out)

    def _id(self, i):
        if i == -1:         # never written: an arbitrary number
            W = self.W
            W._ng = getattr(W, "_ng", 0) + 1
            return node(W.var(f"uninitialised{W._ng}"))
        if i < -1:
            raise CppError("unresolved constant")
        return i

    def functions(self):
        return [f.split("(")[0] for f in self.L.verif_functions().decode().split("\n") if f.startswith("DmpBbo::")]
