"""P12: where a DMP starts, and why it ends up at its goal."""
from harness.dm import TYPES, SCALINGS, build, setup, state, real_goal, fas

BOUNDS = ("all DMP types and forcing-term scalings, dimension 1-2, arbitrary tau, initial state, goal, amplitudes, arbitrary "
          "(uninterpreted) function approximators, arbitrary states")
OUTSIDE = ("convergence is decided through equilibrium, energy dissipation and boundedness by the gated forcing term, not as a limit; the closing "
           "of the generalised-sigmoid gate (exponent 10) at an arbitrary time")


def cases(tier):
    out = []
    for t in TYPES:
        for d in (1, 2) if tier == "quick" else (1, 2, 3):
            for s in SCALINGS if d == 1 or tier != "quick" else ("G_MINUS_Y0_SCALING",):
                p = dict(d=d, typ=t, scal=s)
                for f in ("start", "start_with", "gate"):
                    out.append(dict(name=f"{f}_{t}_{s}_d{d}", fn=f, params=p))
            out.append(dict(name=f"equilibrium_{t}_d{d}", fn="equilibrium", params=dict(d=d, typ=t, scal="NO_SCALING")))
            out.append(dict(name=f"energy_{t}_d{d}", fn="energy", params=dict(d=d, typ=t, scal="NO_SCALING")))
        out.append(dict(name=f"rest_{t}", fn="rest", params=dict(d=1, typ=t, scal="NO_SCALING")))
    return out


def P_(W):
    return setup(W, W.params["d"], W.params["typ"], W.params["scal"])


def check_start(W, P, dmp, x, xd):
    d = P["d"]
    W.eq(x[dmp.SPRING_Y], P["y0"], "starts at the initial state")
    W.eq(x[dmp.SPRING_Z], W.np.zeros(d), "starts at rest")
    goal = real_goal(W, P, x[dmp.GOAL])
    W.eq(goal, P["g"] if P["typ"] == "IJSPEERT_2002_MOVEMENT" else P["y0"],
         "the goal starts at the attractor (delayed goals: at the initial state)")
    W.eq(x[dmp.GATING], W.np.ones(1), "the gate is open")
    W.eq(x[dmp.PHASE], W.np.zeros(1) if P["typ"] == "KULVICIUS_2012_JOINING" else W.np.ones(1), "the phase starts at its beginning")
    W.eq(x[dmp.DAMPING], (2 if "DAMPING" in P["typ"] else 20) * W.np.ones(d), "initial damping")
    W.eq(xd, dmp.differential_equation(x), "the rates are those of the differential equation")
    W.true(x.shape == (dmp.dim_x,) and xd.shape == (dmp.dim_x,), "one state vector")
    W.true(dmp.dim_dmp() == d and dmp.dim_y == d, "dimension of the movement")


def start(W):
    P = P_(W)
    dmp = build(W, P)
    x, xd = dmp.integrate_start()
    check_start(W, P, dmp, x, xd)
    xs, xds, _, _ = dmp.analytical_solution(W.arr([W.const(0), W.pos("dt", W.q(1, 10)) * P["tau"]]))
    W.eq(xs[0], x, "the analytical solution starts there too")
    W.eq(xds[0], xd, "the analytical solution starts with the same rates")
    a = build(W, P)
    y, yd = a.integrate_start()
    y += 1
    yd += 1
    x2, xd2 = a.integrate_start()
    W.eq(x2, x, "changing the returned state does not change the DMP")
    W.eq(xd2, xd, "changing the returned state does not change the DMP")


def start_with(W):
    """a start state passed to integrate_start becomes the initial state"""
    P = P_(W)
    dmp = build(W, P)
    P["y0"] = P["g"] - W.vec("dist", P["d"], W.q(1, 10), 3)
    x, xd = dmp.integrate_start(W.np.array(P["y0"]))
    check_start(W, P, dmp, x, xd)
    x2, xd2 = dmp.integrate_start()
    W.eq(x2, x, "and stays it")
    W.eq(xd2, xd, "and stays it")
    W.eq(dmp.y_init, P["y0"], "and stays it")


def gate(W):
    """the forcing term acts on the acceleration only, in proportion to the gate"""
    P = P_(W)
    dmp = build(W, P)
    x = state(W, P, dmp)
    a, b, s = W.np.array(x), W.np.array(x), x[dmp.GATING][0]
    a[dmp.GATING] = 0
    b[dmp.GATING] = 1
    r, ra, rb = dmp.differential_equation(x), dmp.differential_equation(a), dmp.differential_equation(b)
    free = build(W, P, None).differential_equation(x)
    for idx, n in ((dmp.SPRING_Y, "velocity"), (dmp.GOAL, "goal"), (dmp.PHASE, "phase"), (dmp.DAMPING, "damping")):
        W.eq(r[idx], free[idx], f"the forcing term does not influence the {n}")
    Z = dmp.SPRING_Z
    W.eq(ra[Z], free[Z], "a closed gate means no forcing term")
    W.eq(r[Z] - free[Z], s * (rb[Z] - free[Z]), "the forcing term is proportional to the gate")


def equilibrium(W):
    """at the goal, with the gate closed, nothing moves; nothing else is a resting state"""
    P = P_(W)
    d = P["d"]
    dmp = build(W, P)
    x = state(W, P, dmp)
    x[dmp.GATING] = 0
    k = ("SCT23" in P["typ"] or "2022" in P["typ"]) and "NO_SCALING" not in P["typ"]
    x[dmp.GOAL] = W.np.ones(d) if k else P["g"]
    x[dmp.DAMPING] = 20
    x[dmp.SPRING_Y] = P["g"]
    x[dmp.SPRING_Z] = 0
    xd = dmp.differential_equation(x)
    for idx, n in ((dmp.SPRING, "position"), (dmp.GOAL, "goal"), (dmp.DAMPING, "damping"), (dmp.GATING, "gate")):
        W.eq(xd[idx], W.np.zeros(len(idx)), f"{n} at rest at the goal")
    y = W.np.array(x)
    y[dmp.SPRING] = W.vec("o", 2 * d, -3, 3)
    yd = dmp.differential_equation(y)
    for i in range(d):
        W.true((yd[dmp.SPRING_Y][i] != 0) | (yd[dmp.SPRING_Z][i] != 0) | (y[dmp.SPRING_Y][i] == P["g"][i]), "no other resting position")


def energy(W):
    """with a goal that has arrived, energy about the goal changes by dissipation and by work of the gated forcing term only"""
    P = P_(W)
    d = P["d"]
    dmp = build(W, P)
    x = state(W, P, dmp)
    k = ("SCT23" in P["typ"] or "2022" in P["typ"]) and "NO_SCALING" not in P["typ"]
    x[dmp.GOAL] = W.np.ones(d) if k else P["g"]
    xd = dmp.differential_equation(x)
    for i in range(d):
        y, z, c = x[dmp.SPRING_Y][i], x[dmp.SPRING_Z][i], x[dmp.DAMPING][i]
        dV = 100 * (y - P["g"][i]) * xd[dmp.SPRING_Y][i] + z * xd[dmp.SPRING_Z][i]
        f = x[dmp.GATING][0] * W.uf(f"F{i}", x[dmp.PHASE][0])
        W.eq(P["tau"] * dV, -c * z * z + z * f, "energy balance")
        if f * f <= c * c * z * z:
            W.le(dV, 0, "energy does not grow once the forcing term is smaller than the damping")


def rest(W):
    """goal, gate and damping approach their final values monotonically along the solution"""
    P = P_(W)
    if P["typ"] == "2022_NO_SCALING_DAMPING" or P["typ"] == "SCT23_NO_SCALING":
        W.assume(P["g"] > P["y0"])
    dmp = build(W, P, None)
    t1 = W.var("t1", 0, 3)
    xs, xds, _, _ = dmp.analytical_solution(W.arr([t1]))
    g, gd = xs[0, dmp.GOAL], xds[0, dmp.GOAL]
    end = W.np.ones(1) if ("SCT23" in P["typ"] or "2022" in P["typ"]) and "NO_SCALING" not in P["typ"] else P["g"]
    W.le(0, gd * (end - g), "the delayed goal moves towards the goal")
    if "SCT23" in P["typ"] or "2022" in P["typ"]:
        return gd_damp(W, xs, xds, dmp)
    s, sd = xs[0, dmp.GATING], xds[0, dmp.GATING]
    W.le(sd, 0, "the gate closes")
    W.le(0, s, "the gate does not become negative")
    W.le(s, 1, "the gate never opens further")
    gd_damp(W, xs, xds, dmp)


def gd_damp(W, xs, xds, dmp):
    W.le(0, xds[0, dmp.DAMPING], "the damping does not decrease")
    W.le(xs[0, dmp.DAMPING], 20, "the damping stays below its final value")
