"""P17: a DMP's behaviour depends on its settings, not on what was done with it before."""
from harness.dm import TYPES, SCALINGS, build, setup, state, fas

OPS = ("tau", "y_init", "y_attr", "de", "sol", "start", "start_y", "step", "steps", "decouple", "nosol")
BOUNDS = ("every sequence of up to 2 (thorough 3) operations out of " + ", ".join(OPS) + " on every DMP type (sigmoid types: with an "
          "exponential gate when tau is set), dimension 1-2, arbitrary arguments")


def cases(tier):
    out = []
    for t in TYPES:
        for s in ("NO_SCALING", "G_MINUS_Y0_SCALING"):
            if s != "NO_SCALING" and tier == "quick" and ("SCT23" in t or "2022" in t):
                continue
            for o in OPS:
                out.append(dict(name=f"{t}_{s}_{o}", fn="history", params=dict(d=1 if s == "NO_SCALING" else 2, typ=t, scal=s, first=o,
                                                                             n=1 if tier == "quick" else 2)))
            out.append(dict(name=f"pure_{t}_{s}", fn="pure", params=dict(d=2, typ=t, scal=s)))
            out.append(dict(name=f"args_{t}_{s}", fn="args", params=dict(d=2, typ=t, scal=s)))
        out.append(dict(name=f"shared_{t}", fn="shared", params=dict(d=1, typ=t, scal="NO_SCALING")))
        out.append(dict(name=f"integrate_{t}", fn="integrate", params=dict(d=1, typ=t, scal="NO_SCALING")))
    return out


def make(W, P):
    k = dict(P["kw"])
    if P["typ"] in ("KULVICIUS_2012_JOINING", "COUNTDOWN_2013"):
        k["gating_system"] = W.cls("dynamicalsystems.ExponentialSystem")(P["tau"], 1, 0, 4)
    return build(W, dict(P, kw=k))


def goals_differ(W, P):
    if P["typ"] in ("2022_NO_SCALING_DAMPING", "SCT23_NO_SCALING"):
        for i in range(P["d"]):
            W.assume(P["g"][i] != P["y0"][i])


def act(W, a, P, op, i):
    d, p = P["d"], f"op{i}"
    if op == "tau":
        P["tau"] = W.pos(p, 3)
        a.tau = P["tau"]
    elif op == "y_init":
        P["y0"] = W.vec(p, d, -3, 3)
        goals_differ(W, P)
        a.y_init = W.np.array(P["y0"])
    elif op == "y_attr":
        P["g"] = W.vec(p, d, -3, 3)
        goals_differ(W, P)
        a.y_attr = W.np.array(P["g"])
    elif op == "start_y":
        P["y0"] = W.vec(p, d, -3, 3)
        goals_differ(W, P)
        a.integrate_start(W.np.array(P["y0"]))
    elif op == "start":
        a.integrate_start()
    elif op == "de":
        a.differential_equation(state(W, P, a, p))
    elif op == "sol":
        a.analytical_solution(W.arr([W.const(0), W.q(1, 10) * P["tau"]]))
    elif op == "nosol":
        a.analytical_solution(W.arr([W.const(0)]), suppress_forcing_term=True)
    elif op == "step":
        a.integrate_step_euler(W.q(1, 100), state(W, P, a, p))
    elif op == "steps":
        x, xd = a.integrate_start()
        x, xd = a.integrate_step(W.q(1, 100) * P["tau"], x) if "2022" not in P["typ"] and "SCT" not in P["typ"] else \
            a.integrate_step_euler(W.q(1, 100) * P["tau"], x)
    elif op == "decouple":
        a.decouple_parameters()


def compare(W, a, b, P, msg, sol=True):
    x = state(W, P, b, "cmp")
    W.eq(a.differential_equation(x), b.differential_equation(x), msg + " (differential equation)")
    if sol:
        ts = W.arr([W.const(0), W.q(1, 5) * P["tau"]])
        for u, v, n in zip(a.analytical_solution(ts), b.analytical_solution(ts), ("states", "rates", "forcing terms", "outputs")):
            W.eq(u, v, f"{msg} (solution: {n})")
    p, q = a.integrate_start(), b.integrate_start()
    W.eq(p[0], q[0], msg + " (initial state)")
    W.eq(p[1], q[1], msg + " (initial rates)")
    W.eq(a.tau, P["tau"], "tau read back")
    W.eq(a.y_init, P["y0"], "initial state read back")
    W.eq(a.y_attr, P["g"], "goal read back")


def history(W):
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    a = make(W, P)
    act(W, a, P, W.params["first"], 0)
    for i in range(W.params["n"]):
        act(W, a, P, OPS[W.choose(len(OPS))], i + 1)
    compare(W, a, make(W, P), P, "the same as a DMP constructed that way")


def pure(W):
    """repeating any call repeats its result, whatever was called in between; arguments stay as they were"""
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    a = make(W, P)
    x, ts = state(W, P, a), W.arr([W.const(0), W.q(1, 10) * P["tau"]])
    kx, kt = W.np.array(x), W.np.array(ts)
    calls = dict(de=lambda: (a.differential_equation(x),), sol=lambda: a.analytical_solution(ts),
                 euler=lambda: a.integrate_step_euler(W.q(1, 10), x), start=lambda: a.integrate_start())
    calls["nosol"] = lambda: a.analytical_solution(ts, suppress_forcing_term=True)
    first = {n: [W.np.array(r) for r in c()] for n, c in calls.items()}
    for n in calls:
        for m in calls:  # every pair of calls, one directly after the other
            for p, q in zip(first[n], calls[n]()):
                W.eq(p, q, f"repeating {n} repeats its result")
                q += 1  # what was returned belongs to the caller
            for p, q in zip(first[m], calls[m]()):
                W.eq(p, q, f"{m} after {n} repeats its result")
    W.eq(x, kx, "state argument unchanged")
    W.eq(ts, kt, "times argument unchanged")


def args(W):
    """constructor arguments are not modified"""
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    y0, g = W.np.array(P["y0"]), W.np.array(P["g"])
    a = W.cls("dmps.Dmp")(P["tau"], y0, g, fas(W, P["d"]), dmp_type=P["typ"], forcing_term_scaling=P["scal"])
    for i, op in enumerate(("sol", "start", "steps", "y_attr", "y_init", "start_y", "start", "steps")):
        act(W, a, dict(P), op, i) if op not in ("y_attr", "y_init", "start_y") else None
    a.y_init = W.np.array(P["g"])
    a.y_attr = W.np.array(P["y0"])
    a.integrate_start()
    W.eq(y0, P["y0"], "the initial state passed in is not modified")
    W.eq(g, P["g"], "the goal passed in is not modified")


def shared(W):
    """two DMPs do not influence each other"""
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    a, b = make(W, P), make(W, P)
    x = state(W, P, a)
    before = a.differential_equation(x)
    b.tau = W.pos("tau2", 3)
    b.y_init, b.y_attr = W.vec("ny0", 1, -3, 3) + 7, W.vec("ng", 1, -3, 3)
    b.integrate_start()
    W.eq(a.differential_equation(x), before, "another DMP of the same type has no influence")


def integrate(W):
    """step by step integration is the integration over a sequence of times"""
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    a, b = make(W, P), make(W, P)
    dt = W.q(1, 50)
    n = 2 if "SCT23" in P["typ"] or "2022" in P["typ"] else 3
    ts = W.arr([W.const(0), dt, 2 * dt][:n])
    xs, xds = a.integrate(ts, integration_method="Euler")
    x, xd = b.integrate_start()
    W.eq(xs[0], x, "integration starts at the initial state")
    W.eq(xds[0], xd, "integration starts with the initial rates")
    for i in range(1, n):
        x2 = x + dt * b.differential_equation(x)
        x, xd = b.integrate_step_euler(dt, x)
        W.eq(x, x2, "one Euler step")
        W.eq(xs[i], x, "the same states")
        W.eq(xds[i], xd, "the same rates")
