"""P03: numerical integration implements the Euler and classical Runge-Kutta formulas."""
from harness.dsys import KINDS, params, build, dim_x, state

BOUNDS = ("arbitrary (uninterpreted) right-hand side for the formulas, state dimension 1-3; the shipped systems at dimension "
          "1-2; integrate() over 2-4 (thorough 5) arbitrary increasing times; dt and all states arbitrary reals")


def cases(tier):
    out = []
    for d in (1, 2, 3):
        out.append(dict(name=f"generic_d{d}", fn="generic", params=dict(d=d)))
        out.append(dict(name=f"second_order_d{d}", fn="second_order", params=dict(d=d)))
    for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6)):
        for m in ("Runge-Kutta", "Euler", None):
            out.append(dict(name=f"integrate_n{n}_{m}", fn="integrate", params=dict(n=n, m=m)))
    for k in KINDS:
        for d in (1, 2):
            if k.startswith("time") and d == 2:
                continue
            out.append(dict(name=f"shipped_{k}_d{d}", fn="shipped", params=dict(k=k, d=d)))
    for f in ("guards", "order", "rk4_order"):
        out.append(dict(name=f, fn=f, params={}))
    return out


def make(W, d, tau, y, order=1):
    D = W.cls("dynamicalsystems.DynamicalSystem")

    class Generic(D):
        def differential_equation(self, x):
            W.true(x.shape == (d * order,), "the right-hand side is called with a state vector")
            return W.arr([W.uf(f"f{i}", *[x[j] for j in range(d * order)]) for i in range(d * order)])

        def analytical_solution(self, ts):
            return None, None

        def decouple_parameters(self):
            pass
    return Generic(order, tau, y)


def generic(W, order=1):
    d = W.params["d"]
    tau = W.pos("tau", 5)
    y = W.vec("y", d, -5, 5)
    s = make(W, d, tau, y, order)
    n = d * order
    x, dt = W.vec("x", n, -5, 5), W.pos("dt", 1)
    f = s.differential_equation
    keep = W.np.array(x)
    xn, xdn = s.integrate_step_euler(dt, x)
    W.eq(xn, x + dt * f(x), "Euler step")
    W.eq(xdn, f(x), "Euler rate")
    k1 = f(x)
    k2 = f(x + dt / 2 * k1)
    k3 = f(x + dt / 2 * k2)
    k4 = f(x + dt * k3)
    xr = x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6
    for step in (s.integrate_step_runge_kutta, s.integrate_step):
        xn, xdn = step(dt, x)
        W.eq(xn, xr, "Runge-Kutta step")
        W.eq(xdn, f(xr), "Runge-Kutta rate is the rate at the new state")
    W.eq(x, keep, "the state passed in is not modified")
    x0, xd0 = s.integrate_start()
    full = W.np.concatenate((y, W.np.zeros(n - d)))
    W.eq(x0, full, "integration starts at the initial state")
    W.eq(xd0, f(full), "with the rate of the differential equation")
    y2 = W.vec("yn", d, -5, 5)
    x0, xd0 = s.integrate_start(y2)
    full = W.np.concatenate((y2, W.np.zeros(n - d)))
    W.eq(x0, full, "integration starts at the initial state given")
    W.eq(xd0, f(full), "with the rate of the differential equation")
    W.eq(s.y_init, y2, "the initial state is remembered")


def second_order(W):
    generic(W, 2)


def integrate(W):
    n, m = W.params["n"], W.params["m"]
    d = 1
    s = make(W, d, W.pos("tau", 5), W.vec("y", d, -5, 5))
    ts = W.increasing("t", n, gap_hi=5)
    xs, xds = s.integrate(ts) if m is None else s.integrate(ts, integration_method=m)
    W.true(xs.shape == (n, d) and xds.shape == (n, d), "one state and rate per time step")
    x, xd = s.integrate_start()
    for i in range(n):
        W.eq(xs[i], x, "states follow the recurrence")
        W.eq(xds[i], xd, "rates follow the recurrence")
        if i + 1 < n:
            dt = ts[i + 1] - ts[i]
            x, xd = s.integrate_step_euler(dt, x) if m == "Euler" else s.integrate_step_runge_kutta(dt, x)


def shipped(W):
    k, d = W.params["k"], W.params["d"]
    P = params(W, k, d, 0)
    s = build(W, k, P)
    n = dim_x(k, d)
    W.true(s.dim_x == n, "dim_x")
    x, dt = state(W, k, d, P), W.pos("dt", W.q(1, 10))
    f = lambda z: s.differential_equation(z).reshape(-1)
    xn, xdn = s.integrate_step_euler(dt, x)
    W.eq(xn.reshape(-1), x + dt * f(x), "Euler step")
    W.eq(xdn.reshape(-1), f(x), "Euler rate")
    x0, xd0 = s.integrate_start()
    if not k.startswith("time"):
        W.eq(x0, W.np.concatenate((P["x0"], W.np.zeros(n - d))), "starts at the initial state")
    else:
        W.eq(x0, W.arr([1 if k == "time_down" else 0]), "starts at the initial state")
    W.eq(xd0.reshape(-1), f(x0), "initial rate")
    # the same class with an arbitrary right-hand side
    f = lambda z: W.arr([W.uf(f"g{i}", *[z[j] for j in range(n)]) for i in range(n)])
    s.differential_equation = f
    xn, xdn = s.integrate_step_euler(dt, x)
    W.eq(xn, x + dt * f(x), "Euler step")
    W.eq(xdn, f(x), "Euler rate")
    k1 = f(x)
    k2 = f(x + dt / 2 * k1)
    k3 = f(x + dt / 2 * k2)
    k4 = f(x + dt * k3)
    xr = x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6
    for step in (s.integrate_step, s.integrate_step_runge_kutta):
        xn, xdn = step(dt, x)
        W.eq(xn, xr, "Runge-Kutta step")
        W.eq(xdn, f(xr), "Runge-Kutta rate")


def guards(W):
    for k in KINDS:
        d = 1 if k.startswith("time") else 2
        P = params(W, k, d, 0, k)
        s = build(W, k, P)
        n = dim_x(k, d)
        dt = W.pos("dt", 1)
        for m in (n - 1, n + 1):
            if m == 0:
                continue
            x = W.vec(f"{k}bad{m}", m, 0, 1)
            W.raises(lambda: s.integrate_step_euler(dt, x), f"{k}: Euler step refuses a state of size {m}", ValueError)
            W.raises(lambda: s.integrate_step_runge_kutta(dt, x), f"{k}: Runge-Kutta step refuses size {m}", ValueError)
            W.raises(lambda: setattr(s, "x_init", x), f"{k}: x_init refuses size {m}", ValueError)
            if not k.startswith("spring"):
                W.raises(lambda: setattr(s, "y_init", x), f"{k}: y_init refuses size {m}", ValueError)
        if k in ("exponential", "spring", "springkm"):
            x = W.vec(f"{k}attr", d + 1, 0, 1)
            W.raises(lambda: setattr(s, "y_attr", x), f"{k}: y_attr refuses size {d+1}", ValueError)
    D = make(W, 1, W.pos("tau", 5), W.vec("y", 1))
    W.eq(D.tau, W.pos("tau", 5), "tau is kept")
    for o in (0, 3, -1):
        W.raises(lambda: make(W, 1, W.pos("tau", 5), W.vec("y", 1), o), f"order {o} is refused", ValueError)


def order(W):
    """one step from an exact state reproduces the Taylor expansion of the exact solution"""
    tau, x0, xa = W.pos("tau", 5), W.vec("x0", 1, -5, 5), W.vec("xa", 1, -5, 5)
    al, dt = W.var("alpha", 0, 6), W.pos("dt", 1)
    s = W.cls("dynamicalsystems.ExponentialSystem")(tau, x0, xa, al)
    u = al * dt / tau
    xn, _ = s.integrate_step(dt, x0)
    W.eq(xn, xa + (x0 - xa) * (1 - u + u**2 / 2 - u**3 / 6 + u**4 / 24), "Runge-Kutta has order 4")
    xn, _ = s.integrate_step_euler(dt, x0)
    W.eq(xn, xa + (x0 - xa) * (1 - u), "Euler has order 1")


def rk4_order(W):
    """one Runge-Kutta step on the spring-damper equals the order 4 expansion of the matrix exponential"""
    tau, c, k, m = W.pos("tau", 5), W.pos("c", 9), W.pos("k", 9), W.pos("m", 4)
    ya = W.vec("ya", 1, -5, 5)
    s = W.cls("dynamicalsystems.SpringDamperSystem")(tau, W.vec("y0", 1, -5, 5), ya, c, k, m)
    x, dt = W.vec("x", 2, -5, 5), W.pos("dt", 1)
    A = W.arr([[0, 1 / tau], [-k / (m * tau), -c / (m * tau)]])
    e = x - W.np.concatenate((ya, W.np.zeros(1)))
    acc, term = e, e
    for i in range(1, 5):
        term = W.np.dot(A, term) * dt / i
        acc = acc + term
    xn, _ = s.integrate_step_runge_kutta(dt, x)
    W.eq(xn, acc + W.np.concatenate((ya, W.np.zeros(1))), "order 4 in the matrix exponential", tol=1e-5)
