"""P02: attractor states are equilibria and the systems converge to them."""

BOUNDS = ("state dimension 1-2 (thorough 3); all parameters, states and times arbitrary reals in the stated domains "
          "(tau>0, alpha>0, damping and spring constants and masses >0); scalar or per-dimension parameters; one integration step")


def cases(tier):
    out = []
    for d in ((1, 2) if tier == "quick" else (1, 2, 3)):
        for arr in (0, 1):
            for f in ("exp_equilibrium", "exp_convergence", "spring_equilibrium", "spring_lyapunov", "spring_solution",
                      "richards_equilibrium", "sigmoid_equilibrium", "exp_steps"):
                out.append(dict(name=f"{f}_d{d}_a{arr}", fn=f, params=dict(d=d, arr=arr)))
    for cd in (0, 1):
        for f in ("time_bounds", "time_steps"):
            out.append(dict(name=f"{f}_{cd}", fn=f, params=dict(cd=cd)))
    return out


def par(W, name, d, arr, **k):
    return W.vec(name, d, **k) if arr else W.var(name, **k)


def setup(W):
    return W.params["d"], W.params["arr"]


def exp_sys(W):
    d, arr = setup(W)
    tau = W.pos("tau", 5)
    x0, xa = W.vec("x0", d, -5, 5), W.vec("xa", d, -5, 5)
    al = par(W, "alpha", d, arr, lo=0, hi=8, strict_lo=True)
    return W.cls("dynamicalsystems.ExponentialSystem")(tau, x0, xa, al), tau, x0, xa, al


def exp_equilibrium(W):
    s, tau, x0, xa, al = exp_sys(W)
    d = W.params["d"]
    W.eq(s.differential_equation(xa), W.np.zeros(d), "rate is zero at the attractor")
    x = W.vec("x", d, -9, 9)
    rate = s.differential_equation(x)
    for i in range(d):
        W.le(0, rate[i] * (xa[i] - x[i]), "the state moves towards the attractor")
    W.assume(x[0] != xa[0])
    W.ne(rate[0], 0, "no other equilibrium")
    s.y_attr = x
    W.eq(s.differential_equation(x), W.np.zeros(d), "rate is zero at a new attractor")


def exp_convergence(W):
    s, tau, x0, xa, al = exp_sys(W)
    d = W.params["d"]
    t1 = W.var("t1", 0, 9)
    t2 = t1 + W.var("dt", 0, 9)
    xs, xds = s.analytical_solution(W.arr([t1, t2]))
    for i in range(d):
        a = al[i] if W.params["arr"] else al
        d0 = x0[i] - xa[i]
        e1, e2 = xs[0][i] - xa[i], xs[1][i] - xa[i]
        W.le(e2 * e2, e1 * e1, "distance to the attractor never grows")
        W.le(0, e2 * d0, "the attractor is not crossed")
        # 1/(1+u) bounds exp(-u): the distance vanishes as t grows
        W.le(e1 * e1 * (1 + a * t1 / tau) * (1 + a * t1 / tau), d0 * d0, "convergence to the attractor")


def exp_steps(W):
    """numerical integration with a sensible step does not overshoot"""
    s, tau, x0, xa, al = exp_sys(W)
    d = W.params["d"]
    x = W.vec("x", d, -9, 9)
    dt = W.pos("dt", 3)
    for i in range(d):
        W.assume((al[i] if W.params["arr"] else al) * dt <= tau)
    for step in (s.integrate_step_euler, s.integrate_step_runge_kutta, s.integrate_step):
        xn, xdn = step(dt, x)
        for i in range(d):
            W.le(0, (xn[i] - xa[i]) * (x[i] - xa[i]), "a step does not cross the attractor")
            W.le((xn[i] - xa[i]) * (xn[i] - xa[i]), (x[i] - xa[i]) * (x[i] - xa[i]), "a step gets closer")


def spring_sys(W, crit=False):
    d, arr = setup(W)
    tau = W.pos("tau", 5)
    y0, ya = W.vec("y0", d, -5, 5), W.vec("ya", d, -5, 5)
    c = par(W, "c", d, arr, lo=0, hi=20, strict_lo=True)
    C = W.cls("dynamicalsystems.SpringDamperSystem")
    if crit:
        return C(tau, y0, ya, c), tau, y0, ya, c, None, None
    k = par(W, "k", d, arr, lo=0, hi=50, strict_lo=True)
    m = par(W, "m", d, arr, lo=0, hi=4, strict_lo=True)
    return C(tau, y0, ya, c, k, m), tau, y0, ya, c, k, m


def spring_equilibrium(W):
    d = W.params["d"]
    for crit in (0, 1):
        s, tau, y0, ya, c, k, m = spring_sys(W, crit)
        x = W.np.concatenate((ya, W.np.zeros(d)))
        W.eq(s.differential_equation(x), W.np.zeros(2 * d), "rate is zero at the attractor at rest")
        x2 = W.vec("x", 2 * d, -9, 9)
        xd = s.differential_equation(x2)
        for i in range(d):
            W.true((xd[i] != 0) | (xd[d + i] != 0) | (x2[i] == ya[i]), "no other equilibrium")
            W.eq(xd[i] * tau, x2[d + i], "z is tau times the velocity")
        s.y_attr = x2[:d]
        W.eq(s.differential_equation(W.np.concatenate((x2[:d], W.np.zeros(d)))), W.np.zeros(2 * d), "new attractor")


def spring_lyapunov(W):
    s, tau, y0, ya, c, k, m = spring_sys(W)
    d, arr = setup(W)
    x = W.vec("x", 2 * d, -9, 9)
    xd = s.differential_equation(x)
    for i in range(d):
        ki, ci, mi = (k[i], c[i], m[i]) if arr else (k, c, m)
        dV = ki * (x[i] - ya[i]) * xd[i] + mi * x[d + i] * xd[d + i]
        W.eq(dV * tau, -ci * x[d + i] * x[d + i], "energy is dissipated by the damper only")
        W.le(dV, 0, "energy never grows")


def spring_solution(W):
    """critically damped from rest: monotone approach, no overshoot"""
    s, tau, y0, ya, c, k, m = spring_sys(W, True)
    d, arr = setup(W)
    t1 = W.var("t1", 0, 9)
    xs, xds = s.analytical_solution(W.arr([t1]))
    for i in range(d):
        w = (c[i] if arr else c) / 2
        d0, e1 = y0[i] - ya[i], xs[0][i] - ya[i]
        W.le(0, e1 * d0, "no overshoot of the attractor")
        W.le(e1 * e1, d0 * d0, "never further away than at the start")
        W.le(xds[0][i] * d0, 0, "always moves towards the attractor")
        u = w * t1 / tau
        h = W.np.exp(u / 2)
        W.le(e1 * d0 * h, d0 * d0 * 2, "exponential convergence to the attractor")


def richards_equilibrium(W):
    d, arr = setup(W)
    tau = W.pos("tau", 5)
    x0, xa = W.vec("x0", d, -5, 5), W.vec("xa", d, -5, 5)
    W.assume(x0 != xa)
    s = W.cls("dynamicalsystems.RichardsSystem")(tau, x0, xa, par(W, "ratio", d, arr, lo=0, hi=1),
                                                 par(W, "alpha", d, arr, lo=0, hi=6, strict_lo=True), 1)
    W.eq(s.differential_equation(xa), W.np.zeros(d), "rate is zero at the right asymptote")
    lam = W.var("lam", 0, 1, strict_hi=True)
    x = x0 + lam * (xa - x0)
    r = s.differential_equation(x)
    t = W.var("t", 0, 9)
    xs, xds = s.analytical_solution(W.arr([t]))
    for i in range(d):
        W.lt(0, r[i] * (xa[i] - x0[i]), "moves towards the right asymptote")
        W.lt(0, xds[0][i] * (xa[i] - x0[i]), "monotone solution")
        W.le(0, (xs[0][i] - x0[i]) * (xa[i] - x0[i]), "does not move away")
        W.le(0, (xa[i] - xs[0][i]) * (xa[i] - x0[i]), "does not overshoot")


def sigmoid_equilibrium(W):
    d, arr = setup(W)
    tau = W.pos("tau", 3)
    x0 = W.vec("x0", d, 0, 5, strict_lo=True)
    r = par(W, "r", d, arr, lo=-6, hi=0, strict_hi=True)
    s = W.cls("dynamicalsystems.SigmoidSystem")(tau, x0, r, par(W, "infl", d, arr, lo=0, hi=1))
    W.eq(s.differential_equation(W.np.zeros(d)), W.np.zeros(d), "zero is an equilibrium")
    t1 = W.var("t1", 0, 4)
    t2 = t1 + W.var("dt", 0, 4)
    xs, xds = s.analytical_solution(W.arr([t1, t2]))
    for i in range(d):
        W.lt(0, xs[0][i], "a decaying sigmoid stays positive")
        W.le(xs[0][i], x0[i], "a decaying sigmoid stays below its initial state")
        W.le(xs[1][i], xs[0][i], "a decaying sigmoid decays")
        W.lt(xds[0][i], 0, "negative rate")


def time_bounds(W):
    cd = W.params["cd"]
    tau, t = W.pos("tau", 5), W.var("t", 0, 10)
    s = W.cls("dynamicalsystems.TimeSystem")(tau, bool(cd))
    t2 = t + W.var("dt", 0, 5)
    xs, xds = s.analytical_solution(W.arr([t, t2]))
    a, b = xs[0][0], xs[1][0]
    W.le(0, a, ">= 0"), W.le(a, 1, "<= 1")
    W.le(b, a, "counts down") if cd else W.le(a, b, "counts up")
    if t >= tau:
        W.eq(a, W.const(0 if cd else 1), "saturates at tau")
        if t > tau:
            W.eq(xds[0][0], W.const(0), "rate is zero afterwards")
    else:
        W.eq(a, (1 - t / tau) if cd else t / tau, "linear in time")


def time_steps(W):
    cd = W.params["cd"]
    tau, dt = W.pos("tau", 5), W.pos("dt", 1)
    s = W.cls("dynamicalsystems.TimeSystem")(tau, bool(cd))
    x = W.vec("x", 1, 0, 1)
    W.assume(dt <= tau)
    end = W.arr([-W.var("past", 0, 1) if cd else 1 + W.var("past", 0, 1)])
    W.eq(s.differential_equation(end).reshape(-1), W.np.zeros(1), "stays at its end")
    for step in (s.integrate_step_euler, s.integrate_step_runge_kutta):
        xn, xdn = step(dt, x)
        xn = xn.reshape(-1)
        W.le(xn, x, "never runs backwards") if cd else W.le(x, xn, "never runs backwards")
        W.le(-dt / tau, xn, "overshoot at most one step")
        W.le(xn, 1 + dt / tau, "overshoot at most one step")
        inside = x[0] > 2 * dt / tau if cd else x[0] < 1 - 2 * dt / tau
        if inside:
            W.eq(xn, x - dt / tau if cd else x + dt / tau, "exact while running")
