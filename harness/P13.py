"""P13: the DMP's differential equation and its analytical solution are those of its definition."""
from harness.dm import TYPES, SCALINGS, build, setup, factor, state, real_goal, fas, FA

BOUNDS = ("all DMP types and forcing-term scalings, dimension 1-2 (thorough 3), arbitrary state, tau, initial state, goal, amplitudes, "
          "arbitrary (uninterpreted) function approximators; analytical solution over 2-3 (thorough 4) arbitrary increasing times "
          "starting at 0")
OUTSIDE = "times exactly equal to the time constant of a time-based phase system (its rate jumps there)"


def cases(tier):
    out = []
    for t in TYPES:
        for s in SCALINGS:
            for d in (1, 2) if tier == "quick" else (1, 2, 3):
                if d == 2 and s == "AMPLITUDE_SCALING" and t in ("COUNTDOWN_2013",) and tier == "quick":
                    continue
                out.append(dict(name=f"definition_{t}_{s}_d{d}", fn="definition", params=dict(d=d, typ=t, scal=s)))
            slow = "SCT23" in t or "2022" in t
            for d, n in ((1, 3), (2, 2)) if tier == "quick" else ((1, 3), (2, 3), (1, 4)):
                if slow and n == 3 and tier == "quick" and (s != "NO_SCALING" or "DAMPING" in t):
                    continue
                out.append(dict(name=f"analytical_{t}_{s}_d{d}_n{n}", fn="analytical", params=dict(d=d, typ=t, scal=s, n=n)))
        out.append(dict(name=f"derivative_{t}", fn="derivative", params=dict(d=1, typ=t)))
    for f in ("overrides", "untrained", "alpha", "bad_type", "default_type", "no_goal_override", "bad_amplitudes"):
        out.append(dict(name=f, fn=f, params={}))
    return out


def subsystems(W, P):
    """the subsystems each type is documented to have"""
    C = lambda n: W.cls(f"dynamicalsystems.{n}System")
    typ, tau, y0, g, d = P["typ"], P["tau"], P["y0"], P["g"], P["d"]
    if typ == "IJSPEERT_2002_MOVEMENT":
        return dict(goal=None, gating=C("Exponential")(tau, 1, 0, 4), phase=C("Exponential")(tau, 1, 0, 4), damping=None)
    if typ in ("KULVICIUS_2012_JOINING", "COUNTDOWN_2013"):
        return dict(goal=C("Exponential")(tau, y0, g, 15), gating=C("Sigmoid").for_gating(tau, W.q(1, 10)),
                    phase=C("Time")(tau, typ == "COUNTDOWN_2013"), damping=None)
    o, z = W.np.ones(d), W.np.zeros(d)
    noscale = "NO_SCALING" in typ
    return dict(goal=C("Richards")(tau, y0 if noscale else z, g if noscale else o, W.q(3, 10), 10, 1),
                gating=C("Richards")(tau, W.np.ones(1), W.np.zeros(1), 1, 10, 10), phase=C("Time")(tau, True),
                damping=C("Exponential")(tau, 2 * o, 20 * o, 4) if "DAMPING" in typ else None)


def definition(W):
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    d, tau = P["d"], P["tau"]
    dmp = build(W, P)
    x = state(W, P, dmp)
    keep = W.np.array(x)
    xd = dmp.differential_equation(x)
    W.eq(x, keep, "the state passed in is not modified")
    goal = real_goal(W, P, x[dmp.GOAL]) if P["typ"] != "IJSPEERT_2002_MOVEMENT" else P["g"]
    fac = factor(W, P)
    Y, Z = x[dmp.SPRING_Y], x[dmp.SPRING_Z]
    for i in range(d):
        f = x[dmp.GATING][0] * W.uf(f"F{i}", x[dmp.PHASE][0]) * fac[i]
        c = x[dmp.DAMPING][i]
        W.eq(tau * xd[dmp.SPRING_Y][i], Z[i], "tau yd = z")
        W.eq(tau * xd[dmp.SPRING_Z][i], 100 * (goal[i] - Y[i]) - c * Z[i] + f,
             "tau zd = k (goal - y) - c z + gating * scaled forcing term")
    S = subsystems(W, P)
    W.eq(xd[dmp.PHASE], S["phase"].differential_equation(x[dmp.PHASE]).reshape(-1), "phase system")
    W.eq(xd[dmp.GATING], S["gating"].differential_equation(x[dmp.GATING]).reshape(-1), "gating system")
    W.eq(xd[dmp.GOAL], S["goal"].differential_equation(x[dmp.GOAL]) if S["goal"] else W.np.zeros(d), "goal system")
    W.eq(xd[dmp.DAMPING], S["damping"].differential_equation(x[dmp.DAMPING]) if S["damping"] else W.np.zeros(d), "damping system")


def times(W, n, tau, typ):
    t = [W.const(0)]
    for i in range(1, n):
        t.append(t[-1] + W.var(f"dt{i}", 0, 1, strict_lo=True))
        if typ != "IJSPEERT_2002_MOVEMENT":
            W.assume(t[-1] != tau)
    return W.arr(t)


def analytical(W):
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    n, d = W.params["n"], P["d"]
    dmp = build(W, P)
    ts = times(W, n, P["tau"], P["typ"])
    keep = W.np.array(ts)
    xs, xds, f, fo = dmp.analytical_solution(ts)
    W.eq(ts, keep, "times not modified")
    W.true(xs.shape == (n, dmp.dim_x) and xds.shape == xs.shape and f.shape == (n, d) and fo.shape == (n, d), "one row per time")
    W.eq(xs[0, dmp.SPRING_Y], P["y0"], "starts at the initial state")
    W.eq(xs[0, dmp.SPRING_Z], W.np.zeros(d), "starts at rest")
    S = subsystems(W, P)
    sp = dmp.SPRING
    fac = factor(W, P)
    for i in range(n):
        W.eq(xds[i], dmp.differential_equation(xs[i]), "rates are those of the differential equation")
        if i:
            W.eq(xs[i, sp], xs[i - 1, sp] + (ts[i] - ts[i - 1]) * xds[i - 1, sp], "the spring part is integrated with Euler steps")
        for j in range(d):
            W.eq(fo[i, j], W.uf(f"F{j}", xs[i, dmp.PHASE][0]), "function approximator outputs are reported")
            W.eq(f[i, j], fo[i, j] * xs[i, dmp.GATING][0] * fac[j], "the forcing term is the gated and scaled output")
    for k, idx in (("phase", dmp.PHASE), ("gating", dmp.GATING), ("goal", dmp.GOAL), ("damping", dmp.DAMPING)):
        if S[k] is not None:
            W.eq(xs[:, idx], S[k].analytical_solution(ts)[0], f"{k} follows its analytical solution")
        elif k == "goal":
            W.eq(xs[:, idx], W.np.tile(P["g"], (n, 1)), "the goal is the attractor")
        else:
            W.eq(xs[:, idx], 20 * W.np.ones((n, d)), "constant damping")
    xs0, xds0, f0, fo0 = dmp.analytical_solution(ts, suppress_forcing_term=True)
    W.eq(f0, W.np.zeros((n, d)), "no forcing term when suppressed")
    if n == 2:
        xsn, xdsn, _, _ = build(W, P, None).analytical_solution(ts)
        W.eq(xs0, xsn, "suppressing the forcing term is having no function approximators")
        W.eq(xds0, xdsn, "suppressing the forcing term is having no function approximators")
        tr = dmp.states_as_trajectory(ts, xs, xds)
        for i in range(n):
            W.eq(tr.ys[i], xs[i, dmp.SPRING_Y], "trajectory position")
            W.eq(tr.yds[i], xs[i, dmp.SPRING_Z] / P["tau"], "trajectory velocity")
            W.eq(tr.ydds[i], xds[i, dmp.SPRING_Z] / P["tau"], "trajectory acceleration")
            y, yd, ydd = dmp.states_as_pos_vel_acc(xs[i], xds[i])
            W.eq(y, tr.ys[i], "position")
            W.eq(yd, tr.yds[i], "velocity")
            W.eq(ydd, tr.ydds[i], "acceleration")
        W.eq(tr.ts, ts, "trajectory times")


def derivative(W):
    """the goal, phase, gating and damping rates are time derivatives"""
    P = setup(W, W.params["d"], W.params["typ"])
    dmp = build(W, P, None)
    t = W.var("t", 0, 2, free=True)
    if W.params["typ"] != "IJSPEERT_2002_MOVEMENT":
        W.assume(t != P["tau"])
    sub = W.np.concatenate((dmp.GOAL, dmp.PHASE, dmp.GATING, dmp.DAMPING))
    sol = lambda u: dmp.analytical_solution(W.arr([u]))
    W.eq(sol(t)[1][0][sub], W.ddt(lambda u: sol(u)[0][0][sub], t), "rates are time derivatives", tol=W.ddt_tol)


def overrides(W):
    """subsystems given explicitly are the ones that are used"""
    P = setup(W, 1, "KULVICIUS_2012_JOINING")
    C = lambda n: W.cls(f"dynamicalsystems.{n}System")
    tau = P["tau"]
    mk = lambda: dict(phase_system=C("Exponential")(tau, 1, 0, W.q(7, 2)), gating_system=C("Exponential")(tau, 1, 0, 2),
                      goal_system=C("Exponential")(tau, P["y0"], P["g"], 9),
                      damping_system=C("Exponential")(tau, W.np.ones(1), 5 * W.np.ones(1), 3),
                      transformation_system=C("SpringDamper")(tau, P["y0"], P["g"], 7, 8, 2))
    P["kw"] = mk()
    dmp, S = build(W, P), mk()
    x = W.np.zeros(dmp.dim_x)
    for i in range(dmp.dim_x):
        x[i] = W.var(f"x{i}", W.q(1, 10), 1)
    xd = dmp.differential_equation(x)
    for k, idx in (("phase", dmp.PHASE), ("gating", dmp.GATING), ("goal", dmp.GOAL), ("damping", dmp.DAMPING)):
        W.eq(xd[idx], S[k + "_system"].differential_equation(x[idx]), f"the {k} system passed in is used")
    Y, Z, g, c = x[dmp.SPRING_Y][0], x[dmp.SPRING_Z][0], x[dmp.GOAL][0], x[dmp.DAMPING][0]
    f = x[dmp.GATING][0] * W.uf("F0", x[dmp.PHASE][0])
    W.eq(tau * xd[dmp.SPRING_Z][0], (8 * (g - Y) - c * Z) / 2 + f, "the transformation system passed in is used")


def untrained(W):
    """untrained or missing function approximators mean a zero forcing term"""
    P = setup(W, 2, "IJSPEERT_2002_MOVEMENT")
    a, b, c = build(W, P, None), build(W, P, fas(W, 2, False)), build(W, P, [FA(W, "F0"), FA(W, "F1", False)])
    x = state(W, P, a)
    r = a.differential_equation(x)
    W.eq(b.differential_equation(x), r, "no forcing term")
    q = c.differential_equation(x)
    W.eq(q[a.SPRING_Z][1], r[a.SPRING_Z][1], "no forcing term for the dimension that is not trained")
    W.eq((q - r)[a.SPRING_Z][0] * P["tau"], x[a.GATING][0] * W.uf("F0", x[a.PHASE][0]), "forcing term for the other")


def alpha(W):
    P = setup(W, 1, "COUNTDOWN_2013")
    al = W.pos("alpha", 30)
    P["kw"]["alpha_spring_damper"] = al
    dmp = build(W, P, None)
    x, _ = dmp.integrate_start()
    W.eq(x[dmp.DAMPING], W.arr([al]), "damping coefficient")
    x[dmp.SPRING] = W.vec("s", 2, -3, 3)
    xd = dmp.differential_equation(x)
    Y, Z, g = x[dmp.SPRING_Y][0], x[dmp.SPRING_Z][0], x[dmp.GOAL][0]
    W.eq(P["tau"] * xd[dmp.SPRING_Z][0], al * al / 4 * (g - Y) - al * Z, "critically damped spring with the given damping")


def bad_type(W):
    P = setup(W, 1, "nonsense")
    W.raises(lambda: build(W, P), "an unknown type is refused", ValueError)


def default_type(W):
    P = setup(W, 1, "KULVICIUS_2012_JOINING")
    a, b = build(W, P), D(W)(P["tau"], P["y0"], P["g"], fas(W, 1))
    x = state(W, P, a)
    W.eq(a.differential_equation(x), b.differential_equation(x), "default type and scaling")
    for short, long in (("Kul12", "KULVICIUS_2012_JOINING"), ("Ijs02", "IJSPEERT_2002_MOVEMENT")):
        a, b = build(W, P, typ=short), build(W, P, typ=long)
        W.eq(a.differential_equation(x), b.differential_equation(x), "short names of the types")


def D(W):
    return W.cls("dmps.Dmp")


def no_goal_override(W):
    """a goal system can be switched off"""
    P = setup(W, 1, "KULVICIUS_2012_JOINING")
    P["kw"]["goal_system"] = None
    dmp = build(W, P)
    x = state(W, P, dmp)
    Y, Z = x[dmp.SPRING_Y][0], x[dmp.SPRING_Z][0]
    xd = dmp.differential_equation(x)
    W.eq(xd[dmp.GOAL], W.np.zeros(1), "no goal dynamics")
    W.eq(P["tau"] * xd[dmp.SPRING_Z][0], 100 * (P["g"][0] - Y) - 20 * Z + x[dmp.GATING][0] * W.uf("F0", x[dmp.PHASE][0]),
         "the goal is the attractor")


def bad_amplitudes(W):
    P = setup(W, 1, "IJSPEERT_2002_MOVEMENT")
    P["scal"] = "AMPLITUDE_SCALING"
    dmp = build(W, P)
    x = state(W, dict(P, scal="NO_SCALING"), build(W, P, scal="NO_SCALING"))
    W.raises(lambda: dmp.differential_equation(x), "amplitude scaling needs amplitudes", ValueError)
