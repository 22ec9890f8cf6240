"""P15: the time constant of a DMP changes its speed only."""
from harness.dm import TYPES, SCALINGS, build, setup, state, fas

BOUNDS = ("DMP types whose gate is not a sigmoid, plus sigmoid-type DMPs with an exponential gate; all forcing-term scalings, dimension "
          "1-2; arbitrary pairs of time constants, states, initial states and goals; 2-3 arbitrary increasing times")
OUTSIDE = "the sigmoid gate of the Kulvicius/countdown types (its rate is absolute by design, as documented for SigmoidSystem)"
ALL = tuple(t for t in TYPES)


def cases(tier):
    out = []
    for t in ALL:
        for s in SCALINGS:
            for d in (1, 2):
                out.append(dict(name=f"rates_{t}_{s}_d{d}", fn="rates", params=dict(d=d, typ=t, scal=s)))
                if d == 1 or s == "NO_SCALING":
                    out.append(dict(name=f"paths_{t}_{s}_d{d}", fn="paths", params=dict(d=d, typ=t, scal=s, n=2)))
        if tier != "quick" or not ("SCT23" in t or "2022" in t):
            out.append(dict(name=f"paths3_{t}", fn="paths", params=dict(d=1, typ=t, scal="NO_SCALING", n=3)))
        out.append(dict(name=f"set_{t}", fn="setting", params=dict(d=2, typ=t, scal="G_MINUS_Y0_SCALING")))
    return out


def make(W, P, tau):
    k = dict(P["kw"])
    if P["typ"] in ("KULVICIUS_2012_JOINING", "COUNTDOWN_2013"):
        k["gating_system"] = W.cls("dynamicalsystems.ExponentialSystem")(tau, 1, 0, 4)
    return build(W, dict(P, tau=tau, kw=k))


def rates(W):
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    t1, t2 = P["tau"], W.pos("tau2", 3)
    a, b = make(W, P, t1), make(W, P, t2)
    x = state(W, P, a)
    ra, rb = a.differential_equation(x), b.differential_equation(x)
    W.eq(ra * t1, rb * t2, "rates are inversely proportional to the time constant")
    a.tau = t2
    W.eq(a.tau, t2, "the time constant can be read back")
    W.eq(a.differential_equation(x), rb, "setting the time constant is constructing with it")
    x1, xd1 = a.integrate_start()
    x2, xd2 = b.integrate_start()
    W.eq(x1, x2, "the same initial state")
    W.eq(xd1, xd2, "setting the time constant is constructing with it (initial rates)")


def paths(W):
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    n = W.params["n"]
    t1, t2 = P["tau"], W.pos("tau2", 3)
    a, b = make(W, P, t1), make(W, P, t2)
    u = [W.const(0)]
    for i in range(1, n):
        u.append(u[-1] + W.var(f"u{i}", W.q(1, 20), 1))
        if P["typ"] != "IJSPEERT_2002_MOVEMENT":
            W.assume(u[-1] != 1)
    u = W.arr(u)
    xa, xda, fa, _ = a.analytical_solution(u * t1)
    xb, xdb, fb, _ = b.analytical_solution(u * t2)
    W.eq(xa, xb, "the same states at the same fraction of the time constant")
    W.eq(xda * t1, xdb * t2, "rates are inversely proportional to the time constant")
    W.eq(fa, fb, "the same forcing term at the same fraction of the time constant")
    ta, tb = a.states_as_trajectory(u * t1, xa, xda), b.states_as_trajectory(u * t2, xb, xdb)
    W.eq(ta.ys, tb.ys, "the same path")
    W.eq(ta.yds * t1, tb.yds * t2, "velocity scales with 1/tau")
    W.eq(ta.ydds * t1 * t1, tb.ydds * t2 * t2, "acceleration scales with 1/tau^2")


def setting(W):
    """any number of changes of tau is the last one"""
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    t2, t3 = W.pos("tau2", 3), W.pos("tau3", 3)
    a, b = make(W, P, P["tau"]), make(W, P, t3)
    x = state(W, P, a)
    a.tau = t2
    a.differential_equation(x)
    a.integrate_start()
    a.tau = t3
    W.eq(a.differential_equation(x), b.differential_equation(x), "only the last time constant counts")
    for i in range(2):
        p, q = a.integrate_start(), b.integrate_start()
        W.eq(p[0], q[0], "only the last time constant counts")
        W.eq(p[1], q[1], "only the last time constant counts")
