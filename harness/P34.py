"""Real-time functions of the C++ library do not allocate memory."""
from harness import dm, dsys
from harness import fa as FA
from harness import P31, P33

CPP = True
BOUNDS = ("all dynamical systems of the C++ library, DMPs of 1 and 2 dimensions of all movement types and scaling methods (also read from json, and without function approximators), "
          "both function approximators with 1 to 3 basis functions and 1 to 2 input dimensions; arbitrary states, inputs and parameters; first and later calls, after each setter")
OUTSIDE = "allocations by the operating system or the C library itself; starting the integration"
ASSUMPTIONS = ["allocations are calls of malloc, calloc, realloc, posix_memalign and operator new by the code under test and Eigen, compiled without optimisation"]


def quiet(W, what):
    W.eq(W.q(W.cpp.heap), W.q(0), "allocations: " + what)


def run(W, h, n):
    x, dt = W.vec("s", n, 0, 1, strict_lo=True, strict_hi=True), W.pos("dt", 1)
    for i in range(2):
        W.cpp("deq", h, x)
        quiet(W, "rate of change")
        for how in ((), ("euler",), ("rk",)):
            if i == 1 or how != ():
                W.cpp("step", h, dt, x, *how)
                quiet(W, "integration step")
                W.cpp("step_inplace", h, dt, x, *how)
                quiet(W, "integration step in place")


def system(W):
    kind, d = W.params["kind"], W.params["d"]
    P = dsys.params(W, kind, d, False)
    h, s = P31.make(W, kind, P), dsys.build(W, kind, P)
    if W.choose(2):
        P31.change(W, kind, d, h, s, P)
    run(W, h, dsys.dim_x(kind, d))


def dmp(W):
    P = dm.setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    d = P["d"]
    h, c = P33.build(W, P)
    w = W.choose(5) if d == 1 else 0
    if w == 1:
        W.cpp("start", h)
    elif w == 2:
        W.cpp("set_tau", h, W.pos("tau2", 3))
    elif w == 3:
        W.cpp("set_y_init", h, W.vec("y2", d, -3, 3))
    elif w == 4:
        W.cpp("set_y_attr", h, W.vec("g2", d, -3, 3))
    once(W, h, 3 * d + 2)


def once(W, h, n):
    """rates and Euler steps (a Runge-Kutta step is the same code several times over)"""
    x, dt = W.vec("s", n, 0, 1, strict_lo=True, strict_hi=True), W.pos("dt", 1)
    for i in range(2):
        W.cpp("deq", h, x)
        quiet(W, "rate of change")
        for place in ("step", "step_inplace"):
            W.cpp(place, h, dt, x, "euler")
            quiet(W, "integration step")


def models(W):
    """a DMP with models read from json, or without"""
    d, k = W.params["d"], W.params["fa"]
    P = dm.setup(W, d, W.params["typ"], "G_MINUS_Y0_SCALING")
    if k is None:
        h = W.cpp("dmp_goal", P["tau"], P["y0"], P["g"], W.var("damping", 1, 30))
    else:
        ms = [FA.trained(W, k, 1, 2, f"f{i}")[0] for i in range(d)]
        f = W.tmpdir() + "/dmp.json"
        W.mod("dmpbbo.json_for_cpp").savejson_for_cpp(f, dm.build(W, P, ms))
        with open(f) as fh:
            h = W.cpp("dmp_json", fh.read())
    once(W, h, 3 * d + 2)


def approximator(W):
    k, d, nb = (W.params[x] for x in ("k", "d", "nb"))
    if W.choose(2):
        fa, m = FA.trained(W, k, d, nb)
        f = W.tmpdir() + "/fa.json"
        W.mod("dmpbbo.json_for_cpp").savejson_for_cpp(f, fa)
        with open(f) as fh:
            h = W.cpp("fa_json", fh.read())
    else:
        h = P32make(W, k, FA.model(W, k, d, nb))
    for i in range(2):
        W.cpp("predict_rt", h, W.mat(f"in{i}", 1, d, -3, 3))
        quiet(W, "prediction")
    W.cpp("predict", h, W.mat("batch", 2, d, -3, 3))
    W.cpp("predict_rt", h, W.mat("in2", 1, d, -3, 3))
    quiet(W, "prediction after predictions for several inputs")


def P32make(W, k, m):
    from harness import P32
    return P32.make(W, k, m)


def cases(tier):
    out = []
    for kind in ("exponential", "sigmoid", "spring", "springkm", "time", "time_down"):
        for d in ((1,) if kind.startswith("time") else (1, 2)):
            out.append(dict(name=f"{kind}-d{d}", fn="system", params=dict(kind=kind, d=d)))
    for typ in P33.TYPES:
        for scal in dm.SCALINGS:
            for d in (1, 2):
                out.append(dict(name=f"dmp-{typ[:3]}-{scal[:3]}-d{d}", fn="dmp", params=dict(typ=typ, scal=scal, d=d)))
        for k in ("RBFN", "LWR"):
            out.append(dict(name=f"dmp-{typ[:3]}-{k}", fn="models", params=dict(typ=typ, d=1, fa=k)))
    out.append(dict(name="dmp-none", fn="models", params=dict(typ=P33.TYPES[0], d=2, fa=None)))
    for k in ("LWR", "RBFN"):
        for nb, d in ((1, 1), (2, 1), (3, 1), (2, 2), (1, 2)):
            out.append(dict(name=f"{k}-{nb}-{d}", fn="approximator", params=dict(k=k, d=d, nb=nb)))
    return out
