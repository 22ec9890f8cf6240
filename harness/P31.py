"""The C++ dynamical systems: rates of change, integration steps, closed-form solutions, setters."""
from harness import dsys

CPP = True
BOUNDS = ("all five kinds of system of the C++ library that the Python library has too (exponential, sigmoid, spring-damper, time up/down), "
          "1 and 2 dimensions, arbitrary real parameters, states, step sizes and increasing times (3 points); an arbitrary right-hand side for the integrators")
OUTSIDE = "spring-damper closed form away from critical damping or with mass other than 1; times that are not increasing; rounding"
ASSUMPTIONS = ["the C++ sources are compiled by g++ 13 with a symbolic number type in place of double; Eigen 3.4 runs unchanged on that type"]


def make(W, kind, P):
    c = W.cpp
    if kind == "exponential":
        return c("exponential", P["tau"], P["x0"], P["xa"], P["alpha"])
    if kind == "sigmoid":
        return c("sigmoid", P["tau"], P["x0"], P["r"], P["infl"])
    if kind == "spring":
        return c("spring", P["tau"], P["x0"], P["xa"], P["c"])
    if kind == "springkm":
        return c("spring", P["tau"], P["x0"], P["xa"], P["c"], P["k"], P["m"])
    return c("time", P["tau"], "1" if kind == "time_down" else "0")


def change(W, kind, d, h, s, P):
    """the same setter calls on both"""
    which = W.choose(4 if kind in ("spring", "exponential") else 3)
    if which == 0:
        t = W.pos("tau_new", 5)
        W.cpp("set_tau", h, t)
        s.tau = t
    elif which == 1:
        if kind.startswith("time"):
            return
        x = W.vec("xn", dsys.dim_x(kind, d), 0, 5, strict_lo=True)
        W.cpp("set_x_init", h, x)
        s.x_init = x
    elif which == 2:
        if kind.startswith("time"):
            return
        y = W.vec("yn", d, 0, 5, strict_lo=True)
        W.cpp("set_y_init", h, y)
        s.y_init = y
    else:
        y = W.vec("gn", d, -5, 5)
        W.cpp("set_y_attr", h, y)
        s.y_attr = y


def compare(W, kind, d, h, s, P):
    D = dsys.dim_x(kind, d)
    W.eq(W.arr(list(W.cpp("dims", h))), W.arr([D, D, d if not kind.startswith("time") else 1]), "dimensions")
    W.eq(W.cpp("tau", h), s.tau, "time constant")
    for x in W.cpp("x_init", h):
        W.eq(x, s.x_init.reshape((D,)), "initial state")
    W.eq(W.cpp("y_init", h), s.y_init.reshape((D // 2 if kind.startswith("spring") else D,)), "initial position")
    x = dsys.state(W, kind, d, P)
    xd, same = W.cpp("deq", h, x)
    W.eq(xd, s.differential_equation(x).reshape((D,)), "rate of change")
    W.eq(same, x, "the state given is unchanged")


def ana(W, kind, d, h, s):
    D = dsys.dim_x(kind, d)
    ts = W.increasing("t", W.params.get("n", 3), start=W.var("t0", 0, 3), gap_hi=3)
    xs, xds = s.analytical_solution(ts)
    a, b, t = W.cpp("ana", h, ts)
    W.eq(a, xs, "closed-form states")
    W.eq(b, xds, "closed-form rates")
    W.eq(t, ts, "the times given are unchanged")
    if len(ts) != D:
        a, b, _ = W.cpp("ana", h, ts, "transposed")
        W.eq(a, xs.T, "closed-form states, transposed")
        W.eq(b, xds.T, "closed-form rates, transposed")


def system(W):
    kind, d = W.params["kind"], W.params["d"]
    P = dsys.params(W, kind, d, False)
    h, s = make(W, kind, P), dsys.build(W, kind, P)
    if W.params.get("change"):
        change(W, kind, d, h, s, P)
    if kind == "spring" and not W.params.get("change"):
        k = W.cpp("spring_params", h)
        W.eq(W.arr(list(k)), W.arr([P["c"], P["c"] * P["c"] / 4, 1]), "critical damping")
    compare(W, kind, d, h, s, P)
    if kind != "springkm" and W.params.get("ana"):
        ana(W, kind, d, h, s)


def steps(W):
    kind, d = W.params["kind"], W.params["d"]
    P = dsys.params(W, kind, d, False)
    h, s = make(W, kind, P), dsys.build(W, kind, P)
    D = dsys.dim_x(kind, d)
    if W.choose(2) and not kind.startswith("time"):
        y = W.vec("yn", d, 0, 5, strict_lo=True)
        x, xd = W.cpp("start", h, y)
        px, pxd = s.integrate_start(y)
    else:
        x, xd = W.cpp("start", h)
        px, pxd = s.integrate_start()
    W.eq(x, px.reshape((D,)), "first state")
    W.eq(xd, pxd.reshape((D,)), "first rate")
    dt = W.pos("dt", 1)
    x = dsys.state(W, kind, d, P)
    how = ("euler", "", "rk")[W.choose(W.params["how"])]
    f = s.integrate_step_euler if how == "euler" else s.integrate_step_runge_kutta
    px, pxd = f(dt, x)
    a = W.cpp("step", h, dt, x, *([how] if how else []))
    W.eq(a[0], px.reshape((D,)), how + " step: state")
    W.eq(a[1], pxd.reshape((D,)), how + " step: rate")
    W.eq(a[2], x, how + " step: the state given is unchanged")


def exported(W):
    """exported from Python, read by C++, and written and read again by C++"""
    kind, d = W.params["kind"], W.params["d"]
    P = dsys.params(W, kind, d, False)
    s = dsys.build(W, kind, P)
    if W.choose(2):
        s.tau = W.pos("tau_new", 5)
        if not kind.startswith("time"):
            s.y_init = W.vec("yn", d, 0, 5, strict_lo=True)
            if kind != "sigmoid":
                s.y_attr = W.vec("gn", d, -5, 5)
    f = W.tmpdir() + "/s.json"
    W.mod("dmpbbo.json_for_cpp").savejson_for_cpp(f, s)
    with open(f) as fh:
        h = W.cpp("sys_json", fh.read())
    if W.choose(2):
        t = W.cpp("sys_to_json", h)
        W.cpp("delete_sys", h)
        h = W.cpp("sys_json", t)
    compare(W, kind, d, h, s, P)
    if kind != "springkm":
        ana(W, kind, d, h, s)
    W.cpp("delete_sys", h)


def springs(W):
    P = dsys.params(W, "spring", 1, False)
    h = make(W, "spring", P)
    c, k, m = W.pos("c2", 20), W.pos("k2", 50), W.pos("m2", 4)
    W.cpp("set_damping", h, c)
    W.cpp("set_spring", h, k)
    W.cpp("set_mass", h, m)
    x = W.vec("s", 2, -5, 5)
    xd, _ = W.cpp("deq", h, x)
    W.eq(xd[0], x[1] / P["tau"], "velocity")
    W.eq(m * P["tau"] * xd[1], k * (P["xa"][0] - x[0]) - c * x[1], "acceleration after changing the parameters")
    W.eq(W.arr(list(W.cpp("spring_params", h))), W.arr([c, k, m]), "parameters read back")


def integrators(W):
    """for an arbitrary right-hand side"""
    d = W.params["d"]
    x0 = W.vec("x0", d, -5, 5)
    h = W.cpp("uds", W.pos("tau"), x0)
    f = lambda x: W.arr([W.uf(f"rhs{i}", *[x[j] for j in range(d)]) for i in range(d)])
    x, dt = W.vec("x", d, -5, 5), W.pos("dt", 1)
    a, b = W.cpp("start", h)
    W.eq(a, x0, "start state")
    W.eq(b, f(x0), "start rate")
    k1 = f(x)
    k2 = f(x + dt * k1 / 2)
    k3 = f(x + dt * k2 / 2)
    k4 = f(x + dt * k3)
    want = {"euler": (x + dt * k1, k1)}
    r = x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6
    want["rk"] = want[""] = (r, f(r))
    for how, (u, v) in want.items():
        for place in ("step", "step_inplace"):
            a = W.cpp(place, h, dt, x, *([how] if how else []))
            W.eq(a[0], u, f"{how or 'default'} {place}: state")
            W.eq(a[1], v, f"{how or 'default'} {place}: rate")


def cases(tier):
    out = []
    for kind in ("exponential", "sigmoid", "spring", "springkm", "time", "time_down"):
        for d in ((1,) if kind.startswith("time") else (1, 2)):
            out.append(dict(name=f"{kind}-d{d}", fn="system", params=dict(kind=kind, d=d, ana=True, n=5 if d == 2 and kind == "spring" else 3)))
            out.append(dict(name=f"set-{kind}-d{d}", fn="system", params=dict(kind=kind, d=d, change=True, ana=d == 1)))
            out.append(dict(name=f"exported-{kind}-d{d}", fn="exported", params=dict(kind=kind, d=d)))
            out.append(dict(name=f"steps-{kind}-d{d}", fn="steps", params=dict(kind=kind, d=d, how=1 if kind == "sigmoid" else 3)))
    out.append(dict(name="spring-setters", fn="springs"))
    for d in (1, 2):
        out.append(dict(name=f"integrators-d{d}", fn="integrators", params=dict(d=d)))
    return out
