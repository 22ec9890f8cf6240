"""P01: differential equation and analytical solution of the dynamical systems agree."""

BOUNDS = ("state dimension 1-2 (thorough 3); time, tau, initial state, attractor and parameters are arbitrary reals "
          "(tau>0, t>=0); Richards v in {1/2,1,2} and v an arbitrary real in [1/2,3]; parameters scalar or per-dimension arrays")


def cases(tier):
    dims = (1, 2) if tier == "quick" else (1, 2, 3)
    out = []
    for d in dims:
        for arr in (0, 1):
            out.append(dict(name=f"exponential_d{d}_a{arr}", fn="exponential", params=dict(d=d, arr=arr)))
            out.append(dict(name=f"sigmoid_d{d}_a{arr}", fn="sigmoid", params=dict(d=d, arr=arr)))
            out.append(dict(name=f"spring_d{d}_a{arr}", fn="spring", params=dict(d=d, arr=arr)))
            out.append(dict(name=f"spring_moving_d{d}_a{arr}", fn="spring_moving", params=dict(d=d, arr=arr)))
            for v in ((1, 1), (2, 1), (1, 2), None):
                for left in (0, 1):
                    if d == 1 or v in ((1, 1), (1, 2)) or tier == "thorough":
                        out.append(dict(name=f"richards_d{d}_a{arr}_v{v}_left{left}", fn="richards",
                                        params=dict(d=d, arr=arr, v=v, left=left)))
        out.append(dict(name=f"exponential_list_d{d}", fn="exponential_list", params=dict(d=d)))
        out.append(dict(name=f"sigmoid_list_d{d}", fn="sigmoid_list", params=dict(d=d)))
    for cd in (0, 1):
        out.append(dict(name=f"time_{cd}", fn="time", params=dict(cd=cd)))
    return out


def par(W, name, d, arr, **k):
    return W.vec(name, d, **k) if arr else W.var(name, **k)


def agree(W, s, t, x0):
    xs, xds = s.analytical_solution(W.arr([t]))
    W.eq(xds[0], s.differential_equation(xs[0]), "rates equal the differential equation along the solution")
    W.eq(xds[0], W.ddt(lambda u: s.analytical_solution(W.arr([u]))[0][0], t),
         "rates are the time derivative of the states", tol=W.ddt_tol)
    z = W.arr([W.const(0)])
    W.eq(s.analytical_solution(z)[0][0], x0, "the solution starts at the initial state")


def exponential(W):
    d, arr = W.params["d"], W.params["arr"]
    tau, t = W.pos("tau", 5), W.var("t", 0, 10, free=True)
    x0, xa = W.vec("x0", d, -5, 5), W.vec("xa", d, -5, 5)
    s = W.cls("dynamicalsystems.ExponentialSystem")(tau, x0, xa, par(W, "alpha", d, arr, lo=0, hi=8))
    agree(W, s, t, x0)


def sigmoid(W):
    d, arr = W.params["d"], W.params["arr"]
    tau, t = W.pos("tau", 3), W.var("t", 0, 5, free=True)
    x0 = W.vec("x0", d, 0, 5, strict_lo=True)
    s = W.cls("dynamicalsystems.SigmoidSystem")(tau, x0, par(W, "r", d, arr, lo=-5, hi=5),
                                                par(W, "infl", d, arr, lo=0, hi=1))
    agree(W, s, t, x0)


def spring(W):
    d, arr = W.params["d"], W.params["arr"]
    tau, t = W.pos("tau", 5), W.var("t", 0, 10, free=True)
    y0, ya = W.vec("y0", d, -5, 5), W.vec("ya", d, -5, 5)
    s = W.cls("dynamicalsystems.SpringDamperSystem")(tau, y0, ya, par(W, "c", d, arr, lo=0, hi=20, strict_lo=True))
    x0 = W.np.concatenate((y0, W.np.zeros(d)))
    agree(W, s, t, x0)


def time(W):
    tau, t = W.pos("tau", 5), W.var("t", 0, 10, free=True)
    s = W.cls("dynamicalsystems.TimeSystem")(tau, bool(W.params["cd"]))
    W.assume(t != tau)
    xs, xds = s.analytical_solution(W.arr([t]))
    W.eq(xds[0], s.differential_equation(xs[0]).reshape(-1), "rates equal the differential equation")
    W.eq(xds[0], W.ddt(lambda u: s.analytical_solution(W.arr([u]))[0][0], t), "rates are the derivative", tol=W.ddt_tol)
    W.eq(s.analytical_solution(W.arr([W.const(0)]))[0][0], W.arr([1 if W.params["cd"] else 0]), "starts at 0 / 1")


def spring_moving(W):
    """initial velocity not zero, mass and spring constant given explicitly (critically damped)"""
    d, arr = W.params["d"], W.params["arr"]
    tau, t = W.pos("tau", 5), W.var("t", 0, 10, free=True)
    y0, ya, z0 = W.vec("y0", d, -5, 5), W.vec("ya", d, -5, 5), W.vec("z0", d, -5, 5)
    m = par(W, "m", d, arr, lo=0, hi=4, strict_lo=True)
    w = par(W, "w", d, arr, lo=0, hi=4, strict_lo=True)  # c^2 = 4 k m with k = w^2 m, c = 2 w m
    s = W.cls("dynamicalsystems.SpringDamperSystem")(tau, y0, ya, 2 * w * m, w * w * m, m)
    x0 = W.np.concatenate((y0, z0))
    s.x_init = x0
    agree(W, s, t, x0)


def richards(W):
    d, arr, v, left = W.params["d"], W.params["arr"], W.params["v"], W.params["left"]
    tau, t = W.pos("tau", 5), W.var("t", 0, 5, free=True)
    x0, xa = W.vec("x0", d, -5, 5), W.vec("xa", d, -5, 5)
    W.assume(x0 != xa)
    ratio = par(W, "ratio", d, arr, lo=0, hi=1)
    alpha = par(W, "alpha", d, arr, lo=0, hi=6, strict_lo=True)
    vv = W.q(*v) if v else W.var("v", W.q(1, 2), 3)
    s = W.cls("dynamicalsystems.RichardsSystem")(tau, x0, xa, ratio, alpha, vv)
    if left:
        gap = W.vec("gap", d, 0, 5, strict_lo=True)
        a = x0 - gap * (xa - x0)  # the left asymptote lies on the other side of the initial state
        s.set_left_asymp(a)
    agree(W, s, t, x0)


def exponential_list(W):
    d = W.params["d"]
    tau, t = W.pos("tau", 5), W.var("t", 0, 10, free=True)
    x0, xa = W.vec("x0", d, -5, 5), W.vec("xa", d, -5, 5)
    al = [W.var(f"al{i}", 0, 8) for i in range(d)]
    agree(W, W.cls("dynamicalsystems.ExponentialSystem")(tau, x0, xa, al), t, x0)


def sigmoid_list(W):
    d = W.params["d"]
    tau, t = W.pos("tau", 3), W.var("t", 0, 5, free=True)
    x0 = W.vec("x0", d, 0, 5, strict_lo=True)
    r, f = [W.var(f"r{i}", -5, 5) for i in range(d)], [W.var(f"f{i}", 0, 1) for i in range(d)]
    agree(W, W.cls("dynamicalsystems.SigmoidSystem")(tau, x0, r, f), t, x0)
