"""P14: training a DMP inverts its dynamics: the trained DMP reproduces the demonstration."""
from harness.dm import TYPES, SCALINGS, build, setup, fas, FA

BOUNDS = ("all DMP types and scalings, dimension 1-2, demonstrations of 2-3 (thorough 4) samples at arbitrary increasing times with "
          "arbitrary positions, velocities and accelerations (range not zero where the scaling divides by it); function approximators "
          "are exact interpolators of their training data")
OUTSIDE = "a demonstration time exactly at the end of a time-based phase is only used for the last sample"


def cases(tier):
    out = []
    for t in TYPES:
        for s in SCALINGS:
            sct = "SCT23" in t or "2022" in t
            for d, n in ((1, 2), (2, 2), (1, 3)) if tier == "quick" else ((1, 2), (2, 2), (1, 3), (2, 3), (1, 4)):
                if sct and n == 3 and tier == "quick":
                    continue
                out.append(dict(name=f"inverse_{t}_{s}_d{d}_n{n}", fn="inverse", params=dict(d=d, typ=t, scal=s, n=n)))
            if not sct or s == "NO_SCALING" or tier != "quick":
                out.append(dict(name=f"reproduce_{t}_{s}", fn="reproduce", params=dict(d=1, typ=t, scal=s, n=3)))
        out.append(dict(name=f"settings_{t}", fn="settings", params=dict(d=2, typ=t)))
    for f in ("wrong_dim", "no_fa", "kwargs", "spring"):
        out.append(dict(name=f, fn=f, params={}))
    return out


def demo(W, d, n, typ, euler=False):
    T = W.cls("dmps.Trajectory")
    ts = [W.const(0)]
    for i in range(1, n):
        ts.append(ts[-1] + W.var(f"dt{i}", W.q(1, 50), 1))
    ts = W.arr(ts)
    if euler:
        ydds = W.mat("ydd", n, d, -3, 3)
        ys, yds = [W.vec("y", d, -3, 3)], [W.np.zeros(d)]
        for i in range(1, n):
            dt = ts[i] - ts[i - 1]
            ys.append(ys[-1] + dt * yds[-1])
            yds.append(yds[-1] + dt * ydds[i - 1])
        ys, yds = W.np.array(ys).reshape(n, d), W.np.array(yds).reshape(n, d)
    else:
        ys, yds, ydds = W.mat("y", n, d, -3, 3), W.mat("yd", n, d, -3, 3), W.mat("ydd", n, d, -3, 3)
    for j in range(d):
        W.assume(ys[n - 1, j] != ys[0, j])
    return T(ts, ys, yds, ydds)


def trained(W, euler=False):
    d, typ, scal, n = (W.params[k] for k in ("d", "typ", "scal", "n"))
    tr = demo(W, d, n, typ, euler)
    P = setup(W, d, typ, "NO_SCALING")
    P["scal"] = scal
    F = fas(W, d, False)
    dmp = build(W, P, F)
    dmp.train(tr)
    return tr, dmp, F, P


def inverse(W):
    d, n = W.params["d"], W.params["n"]
    tr, dmp, F, P = trained(W)
    ts, ys, yds, ydds = tr.ts, tr.ys, tr.yds, tr.ydds
    tau = ts[n - 1]
    W.eq(dmp.tau, tau, "tau is the duration of the demonstration")
    W.eq(dmp.y_init, ys[0], "the initial state is that of the demonstration")
    W.eq(dmp.y_attr, ys[n - 1], "the goal is the end of the demonstration")
    xs, xds, f, fo = dmp.analytical_solution(ts)
    for j in range(d):
        W.eq(F[j].inputs.reshape(-1), xs[:, dmp.PHASE].reshape(-1), "trained on the phase")
    for i in range(n):
        x = W.np.array(xs[i])
        x[dmp.SPRING_Y] = ys[i]
        x[dmp.SPRING_Z] = tau * yds[i]
        xd = dmp.differential_equation(x)
        W.eq(xd[dmp.SPRING_Y], yds[i], "velocity of the demonstration")
        W.eq(xd[dmp.SPRING_Z] / tau, ydds[i], "at the states of the demonstration the DMP has its accelerations", tol=1e-5)


def reproduce(W):
    """a demonstration that is an Euler-integrated movement from rest is reproduced exactly"""
    n = W.params["n"]
    tr, dmp, F, P = trained(W, True)
    for ts in (tr.ts, None):
        xs, xds, f, fo = dmp.analytical_solution(ts)
        W.eq(xs[:, dmp.SPRING_Y], tr.ys, "positions reproduced", tol=1e-5)
        W.eq(xds[:, dmp.SPRING_Y], tr.yds, "velocities reproduced", tol=1e-5)
        W.eq(xds[:, dmp.SPRING_Z] / dmp.tau, tr.ydds, "accelerations reproduced", tol=1e-4)


def settings(W):
    """training sets tau, initial state and goal; retraining forgets the first demonstration; the demonstration is not changed"""
    d, typ = W.params["d"], W.params["typ"]
    tr = demo(W, d, 2, typ)
    keep = [W.np.array(a) for a in (tr.ts, tr.ys, tr.yds, tr.ydds)]
    P = setup(W, d, typ, "NO_SCALING")
    F = fas(W, d, False)
    sig = typ in ("KULVICIUS_2012_JOINING", "COUNTDOWN_2013")
    a = build(W, dict(P, tau=tr.ts[1]) if sig else P, F)
    T = W.cls("dmps.Trajectory")
    n = W.np
    t0 = W.arr([0, 2])
    if not sig:  # the gate of these types depends on the tau the DMP was constructed with
        a.train(T(t0, W.arr([[1, 2], [3, 5]]), n.zeros((2, 2)), n.zeros((2, 2))))
    a.train(tr)
    G = fas(W, d, False)
    b = build(W, dict(P, tau=tr.ts[1], y0=tr.ys[0], g=tr.ys[1]), G)
    b.train(tr)
    C = fas(W, d, False)
    c = W.cls("dmps.Dmp").from_traj(tr, C, dmp_type=typ)
    for j in range(d):
        W.eq(F[j].inputs, G[j].inputs, "retraining is training")
        W.eq(C[j].inputs, G[j].inputs, "from a trajectory is training")
        W.eq(C[j].targets, G[j].targets, "from a trajectory is training", tol=1e-5)
        W.eq(F[j].targets, G[j].targets, "retraining is training", tol=1e-5)
    for k, v in zip(keep, (tr.ts, tr.ys, tr.yds, tr.ydds)):
        W.eq(v, k, "the demonstration is not modified")
    W.eq(c.tau, tr.ts[1], "tau")
    W.eq(c.y_init, tr.ys[0], "initial state")
    W.eq(c.y_attr, tr.ys[1], "goal")
    W.eq(c.ts_train, tr.ts, "the training times are kept")


def wrong_dim(W):
    P = setup(W, 1, "IJSPEERT_2002_MOVEMENT")
    dmp = build(W, P, fas(W, 1, False))
    tr = demo(W, 2, 2, "")
    W.raises(lambda: dmp.train(tr), "a demonstration of another dimension is refused", ValueError)


def no_fa(W):
    P = setup(W, 1, "IJSPEERT_2002_MOVEMENT")
    dmp = build(W, P, None)
    W.raises(lambda: dmp.analytical_solution(), "times are needed before training", ValueError)
    tr = demo(W, 1, 2, "")
    dmp.train(tr)
    W.eq(dmp.tau, tr.ts[1], "without function approximators tau, start and goal are learned")
    W.eq(dmp.y_init, tr.ys[0], "start")
    W.eq(dmp.y_attr, tr.ys[1], "goal")


def kwargs(W):
    """function approximators can be given when training; options reach them"""
    P = setup(W, 1, "IJSPEERT_2002_MOVEMENT")
    dmp = build(W, P, None)
    tr = demo(W, 1, 2, "")
    F = fas(W, 1, False)
    dmp.train(tr, function_approximators=F, save_training_data=True)
    W.true(F[0].on and F[0].kw.get("save_training_data") is True, "trained with the options given")
    xs, xds, f, fo = dmp.analytical_solution(tr.ts)
    W.eq(fo[:, 0], F[0].targets, "and used")


def spring(W):
    """the parameters of the transformation system given are the ones inverted"""
    P = setup(W, 1, "IJSPEERT_2002_MOVEMENT")
    c, k, m = W.pos("c", 30), W.pos("k", 100), W.pos("m", 3)
    P["kw"]["transformation_system"] = W.cls("dynamicalsystems.SpringDamperSystem")(P["tau"], P["y0"], P["g"], c, k, m)
    F = fas(W, 1, False)
    dmp = build(W, P, F)
    tr = demo(W, 1, 2, "")
    dmp.train(tr)
    xs, _, _, _ = dmp.analytical_solution(tr.ts)
    for i in range(2):
        x = W.np.array(xs[i])
        x[dmp.SPRING_Y] = tr.ys[i]
        x[dmp.SPRING_Z] = dmp.tau * tr.yds[i]
        W.eq(dmp.differential_equation(x)[dmp.SPRING_Z] / dmp.tau, tr.ydds[i], "acceleration of the demonstration", tol=1e-5)
