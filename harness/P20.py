"""P20: generated trajectories meet their boundary conditions, and velocities and accelerations are the derivatives of positions."""

BOUNDS = ("2-4 (thorough 6) arbitrary increasing times (any start time), dimension 1-3, arbitrary boundary positions, velocities and accelerations; "
          "via-point trajectories over 4-6 uniformly spaced times and any via-point time that leaves two samples on either side")
OUTSIDE = "via-point times that leave fewer than two samples on one side; non-uniform times for via-point trajectories"


def cases(tier):
    out = []
    for d in (1, 2, 3):
        for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
            out.append(dict(name=f"poly_n{n}_d{d}", fn="poly", params=dict(n=n, d=d)))
            out.append(dict(name=f"minjerk_n{n}_d{d}", fn="minjerk", params=dict(n=n, d=d)))
        for n in (4, 5, 6) if tier == "quick" else (4, 5, 6, 8):
            out.append(dict(name=f"via_n{n}_d{d}", fn="via", params=dict(n=n, d=d)))
    out.append(dict(name="via_grid", fn="via", params=dict(n=9, d=1, grid=1)))
    out.append(dict(name="optimal", fn="optimal", params={}))
    return out


def setup(W, n, d):
    ts = W.increasing("t", n, -2, 4)
    q = [W.vec(s, d, -3, 3) for s in ("y0", "yd0", "ydd0", "y1", "yd1", "ydd1")]
    return ts, q


def shapes(W, tr, ts, d):
    n = len(ts)
    W.true(tr.ys.shape == (n, d) and tr.yds.shape == (n, d) and tr.ydds.shape == (n, d), "one row per time, one column per dimension")
    W.eq(tr.ts, ts, "the trajectory is sampled at the times given")
    W.true(tr.dim == d and tr.length == n, "dimension and length")
    W.eq(tr.duration, ts[n - 1] - ts[0], "duration")


def derivs(W, make):
    """rates at an interior time are derivatives"""
    t0, D, t = W.var("dt0", -2, 2), W.pos("dD", 4), W.var("dt", -2, 6)
    W.assume(t > t0)
    W.assume(t < t0 + D)
    at = lambda x: make(W.arr([t0, x, t0 + D]))
    tr = at(t)
    for a, b, what in (("ys", "yds", "velocity"), ("yds", "ydds", "acceleration")):
        W.eq(W.ddt(lambda x: getattr(at(x), a)[1], t), getattr(tr, b)[1], f"{what} is the derivative", tol=W.ddt_tol)


def poly(W):
    n, d = W.params["n"], W.params["d"]
    T = W.cls("dmps.Trajectory")
    ts, q = setup(W, n, d)
    keep = [W.np.array(a) for a in [ts] + q]
    tr = T.from_polynomial(ts, *q)
    shapes(W, tr, ts, d)
    for i, k in ((0, 0), (n - 1, 3)):
        W.eq(tr.ys[i], q[k], f"position at the {'end' if i else 'start'}")
        W.eq(tr.yds[i], q[k + 1], f"velocity at the {'end' if i else 'start'}")
        W.eq(tr.ydds[i], q[k + 2], f"acceleration at the {'end' if i else 'start'}")
    if n == 3:
        derivs(W, lambda t: T.from_polynomial(t, *q))
    # shifting time changes nothing else
    s = W.var("shift", -3, 3)
    sh = T.from_polynomial(ts + s, *q)
    for a in ("ys", "yds", "ydds"):
        W.eq(getattr(sh, a), getattr(tr, a), "only the time since the start matters")
    for a, b in zip([ts] + q, keep):
        W.eq(a, b, "the arrays passed in are not modified")


def minjerk(W):
    n, d = W.params["n"], W.params["d"]
    T = W.cls("dmps.Trajectory")
    ts, q = setup(W, n, d)
    keep = [W.np.array(a) for a in [ts] + q]
    z = W.np.zeros(d)
    tr = T.from_min_jerk(ts, q[0], q[3])
    shapes(W, tr, ts, d)
    W.eq(tr.ys[0], q[0], "starts at the start")
    W.eq(tr.ys[n - 1], q[3], "ends at the end")
    W.eq(tr.y_init, q[0], "start read back")
    W.eq(tr.y_final, q[3], "end read back")
    for i in (0, n - 1):
        W.eq(tr.yds[i], z, "at rest at start and end")
        W.eq(tr.ydds[i], z, "without acceleration at start and end")
    if n == 3:
        derivs(W, lambda t: T.from_min_jerk(t, q[0], q[3]))
    p = T.from_polynomial(ts, q[0], z, z, q[3], z, z)
    for a in ("ys", "yds", "ydds"):
        W.eq(getattr(p, a), getattr(tr, a), "it is the polynomial at rest at both ends")
    for i in range(n):
        u = (ts[i] - ts[0]) / (ts[n - 1] - ts[0])
        W.eq(tr.ys[i], q[0] + (q[3] - q[0]) * u ** 3 * (10 - 15 * u + 6 * u ** 2), "position at the fraction of the duration")
    for a, b in zip([ts] + q, keep):
        W.eq(a, b, "the arrays passed in are not modified")


def optimal(W):
    """monotone, without overshoot, symmetric in time"""
    T = W.cls("dmps.Trajectory")
    t0, D, u = W.var("t0", -2, 2), W.pos("D", 4), W.var("u", 0, 1)
    y0, y1 = W.vec("y0", 1, -3, 3), W.vec("y1", 1, -3, 3)
    W.assume(y1[0] > y0[0])
    W.assume(u > 0)
    W.assume(u < 1)
    a = T.from_min_jerk(W.arr([t0, t0 + u * D, t0 + D]), y0, y1)
    b = T.from_min_jerk(W.arr([t0, t0 + (1 - u) * D, t0 + D]), y0, y1)
    W.le(0, a.yds[1, 0], "moves monotonically towards the end")
    W.le(a.ys[1, 0], y1[0], "does not overshoot")
    W.le(y0[0], a.ys[1, 0], "does not undershoot")
    W.eq(a.ys[1] - y0, y1 - b.ys[1], "is symmetric in time")
    W.eq(a.yds[1], b.yds[1], "is symmetric in time (velocity)")
    W.eq(a.ydds[1], -b.ydds[1], "is symmetric in time (acceleration)")


def via(W):
    n, d = W.params["n"], W.params["d"]
    T = W.cls("dmps.Trajectory")
    t0, dt = W.var("t0", -2, 2), W.var("dt", W.q(1, 50), 1)
    if W.params.get("grid"):
        t0, dt = W.const(0), W.q(1, 8)
    ts = W.arr([t0 + i * dt for i in range(n)])
    tv = W.var("tv", -2, 10)
    W.assume(tv > ts[1])
    W.assume(tv <= ts[n - 2])
    y0, y1 = W.vec("y0", d, -3, 3), W.vec("y1", d, -3, 3)
    v = W.vec("v", 3 * d, -3, 3)
    keep = [W.np.array(a) for a in (ts, y0, y1, v)]
    tr = T.from_viapoint_polynomial(ts, y0, v, tv, y1)
    shapes(W, tr, ts, d)
    z = W.np.zeros(d)
    for i, y in ((0, y0), (n - 1, y1)):
        W.eq(tr.ys[i], y, f"position at the {'end' if i else 'start'}")
        W.eq(tr.yds[i], z, "at rest at start and end")
        W.eq(tr.ydds[i], z, "without acceleration at start and end")
    k = 0
    while ts[k] < tv:
        k += 1
    for i in (k - 1, k):
        W.eq(tr.ys[i], v[:d], "passes through the via point at the samples around its time")
        W.eq(tr.yds[i], v[d:2 * d], "with the velocity requested")
        W.eq(tr.ydds[i], v[2 * d:], "with the acceleration requested")
    zz = z
    p = T.from_polynomial(ts[:k], y0, zz, zz, v[:d], v[d:2 * d], v[2 * d:])
    q = T.from_polynomial(ts[k:], v[:d], v[d:2 * d], v[2 * d:], y1, zz, zz)
    for a in ("ys", "yds", "ydds"):
        W.eq(getattr(tr, a), W.np.concatenate((getattr(p, a), getattr(q, a))), "a polynomial up to the via point, another one from it")
    for a, b in zip((ts, y0, y1, v), keep):
        W.eq(a, b, "the arrays passed in are not modified")
