"""P16: a DMP generalises to new initial states and goals: setting them is constructing with them, movements are translated and scaled."""
from harness.dm import TYPES, SCALINGS, D, build, setup, state, fas

BOUNDS = ("all DMP types and scalings, dimension 1-2, arbitrary old and new initial states and goals, arbitrary translations and "
          "per-dimension scale factors, arbitrary function approximators, solutions over 2 arbitrary times (translation and scaling: "
          "also 3 times)")
OUTSIDE = "times exactly equal to the time constant for time-based phases"


def cases(tier):
    out = []
    for t in TYPES:
        sct = "SCT23" in t or "2022" in t
        for s in SCALINGS:
            for d in (1, 2):
                p = dict(d=d, typ=t, scal=s)
                if d == 1 or s != "AMPLITUDE_SCALING":
                    out.append(dict(name=f"set_{t}_{s}_d{d}", fn="setting", params=p))
            for n in (2,) if sct and tier == "quick" else (2, 3):
                out.append(dict(name=f"translate_{t}_{s}_n{n}", fn="translate", params=dict(d=1 if n == 3 else 2, typ=t, scal=s, n=n)))
        for n in (2,) if sct and tier == "quick" else (2, 3):
            out.append(dict(name=f"scale_{t}_n{n}", fn="scale", params=dict(d=1 if n == 3 else 2, typ=t, scal="G_MINUS_Y0_SCALING", n=n)))
        for s in SCALINGS if tier != "quick" else SCALINGS[:2] if not sct else SCALINGS[:1]:
            out.append(dict(name=f"trained_{t}_{s}", fn="trained", params=dict(d=1, typ=t, scal=s)))
        out.append(dict(name=f"guard_{t}", fn="guard", params=dict(d=2, typ=t)))
    return out


def times(W, n, P):
    t = [W.const(0)]
    for i in range(1, n):
        t.append(t[-1] + W.var(f"dt{i}", W.q(1, 20), 1))
        if P["typ"] != "IJSPEERT_2002_MOVEMENT":
            W.assume(t[-1] != P["tau"])
    return W.arr(t)


def new_states(W, P, tag):
    d = P["d"]
    y0 = W.vec(tag + "y0", d, -3, 3)
    g = W.vec(tag + "g", d, -3, 3)
    if P["typ"] in ("2022_NO_SCALING_DAMPING", "SCT23_NO_SCALING"):
        for i in range(d):
            W.assume(g[i] != y0[i])
    return y0, g


def same(W, a, b, P, ts, x, msg):
    W.eq(a.differential_equation(x), b.differential_equation(x), msg + " (differential equation)")
    p, q = a.analytical_solution(ts), b.analytical_solution(ts)
    for u, v, n in zip(p, q, ("states", "rates", "forcing terms", "outputs")):
        W.eq(u, v, f"{msg} (solution: {n})")
    p, q = a.integrate_start(), b.integrate_start()
    W.eq(p[0], q[0], msg + " (initial state)")
    W.eq(p[1], q[1], msg + " (initial rates)")
    W.eq(a.differential_equation(x), b.differential_equation(x), msg + " (after starting)")
    W.eq(a.y_init, b.y_init, msg + " (initial state read back)")
    W.eq(a.y_attr, b.y_attr, msg + " (goal read back)")


def trained(W):
    """after training: setting start and goal is constructing with them and the trained approximators"""
    typ, scal, d = W.params["typ"], W.params["scal"], W.params["d"]
    ts = W.arr([W.const(0), W.var("T", W.q(1, 10), 2)])
    ys = W.mat("demo", 2, d, -3, 3)
    W.assume(ys[0, 0] < ys[1, 0])
    tr = W.cls("dmps.Trajectory")(ts, ys, W.mat("yd", 2, d, -3, 3), W.mat("ydd", 2, d, -3, 3))
    a = D(W).from_traj(tr, fas(W, d, False), dmp_type=typ, forcing_term_scaling=scal)
    P = dict(d=d, typ=typ, scal=scal, tau=ts[-1], kw={})
    if scal == "AMPLITUDE_SCALING":
        P["amp"] = tr.get_range_per_dim()
    P["y0"], P["g"] = new_states(W, P, "new")
    if W.choose(2):
        a.y_init, a.y_attr = W.np.array(P["y0"]), W.np.array(P["g"])
    else:
        a.y_attr, a.y_init = W.np.array(P["g"]), W.np.array(P["y0"])
    b = build(W, P, a._function_approximators)
    tq = W.arr([W.const(0), W.q(1, 10) * ts[-1]])
    same(W, a, b, P, tq, state(W, P, b), "setting after training")


def setting(W):
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    a = build(W, P)
    y0, g = new_states(W, P, "n")
    ts = times(W, 2, P)
    order = W.choose(3)
    if order == 0:
        a.y_init = W.np.array(y0)
        a.y_attr = W.np.array(g)
    elif order == 1:
        a.y_attr = W.np.array(g)
        a.integrate_start(W.np.array(y0))
    else:
        a.integrate_start()
        a.y_attr = W.np.array(y0)
        a.y_init = W.np.array(g)
        a.y_attr = W.np.array(g)
        a.y_init = W.np.array(y0)
    P2 = dict(P, y0=y0, g=g)
    b = build(W, P2)
    same(W, a, b, P2, ts, state(W, P2, b), "a DMP with a new start and goal is one constructed with them")


def translate(W):
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    d, n = P["d"], W.params["n"]
    c = W.vec("shift", d, -3, 3)
    a, b = build(W, P), build(W, P, y0=P["y0"] + c, g=P["g"] + c)
    ts = times(W, n, P)
    (xa, xda, fa, _), (xb, xdb, fb, _) = a.analytical_solution(ts), b.analytical_solution(ts)
    for i in range(n):
        W.eq(xb[i, b.SPRING_Y], xa[i, a.SPRING_Y] + c, "the path is translated")
        W.eq(xdb[i, b.SPRING], xda[i, a.SPRING], "velocities and accelerations stay the same")
    W.eq(fb, fa, "the forcing term stays the same")
    a.y_init, a.y_attr = P["y0"] + c, P["g"] + c
    W.eq(a.analytical_solution(ts)[0][:, a.SPRING], xb[:, b.SPRING], "also when start and goal are set later")


def scale(W):
    """with scaling by goal minus start, the distance covered scales and the shape stays"""
    P = setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    d, n = P["d"], W.params["n"]
    s = W.vec("s", d, W.q(-2), 2, nonzero=True)
    a, b = build(W, P), build(W, P, g=P["y0"] + s * (P["g"] - P["y0"]))
    ts = times(W, n, P)
    (xa, xda, fa, _), (xb, xdb, fb, _) = a.analytical_solution(ts), b.analytical_solution(ts)
    for i in range(n):
        W.eq(xb[i, b.SPRING_Y] - P["y0"], s * (xa[i, a.SPRING_Y] - P["y0"]), "the path is scaled about the start")
        W.eq(xdb[i, b.SPRING_Z], s * xda[i, a.SPRING_Z], "accelerations are scaled")
        W.eq(xb[i, b.SPRING_Z], s * xa[i, a.SPRING_Z], "velocities are scaled")
        W.eq(fb[i], s * fa[i], "the forcing term is scaled")


def guard(W):
    P = setup(W, W.params["d"], W.params["typ"])
    a, b = build(W, P), build(W, P)
    W.raises(lambda: setattr(a, "y_init", W.np.zeros(3)), "an initial state of the wrong size is refused", ValueError)
    W.raises(lambda: setattr(a, "y_attr", W.np.zeros(1)), "a goal of the wrong size is refused", ValueError)
    W.eq(a.y_init, b.y_init, "nothing changed")
    W.eq(a.y_attr, b.y_attr, "nothing changed")
    p, q = a.integrate_start(), b.integrate_start()
    W.eq(p[1], q[1], "nothing changed")
