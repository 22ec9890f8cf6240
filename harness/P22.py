"""P22: a trajectory's views carry the same data and can be read back; missing rates are central differences; sizes are checked."""

BOUNDS = ("trajectories of 1-4 samples (3-5 where rates are computed), dimension 1-2, 0-2 miscellaneous variables, arbitrary times and "
          "values; files: any values, with the rounding of the 7 decimals that are written")
OUTSIDE = "central differences of fewer than three samples, or of unevenly spaced samples; low-pass filtering; plotting"


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for d in (1, 2):
            for e in (0, 1, 2):
                p = dict(n=n, d=d, e=e)
                out.append(dict(name=f"matrix_n{n}_d{d}_e{e}", fn="matrix", params=p))
                out.append(dict(name=f"file_n{n}_d{d}_e{e}", fn="file", params=p))
                if n > 1 or e == 1:
                    out.append(dict(name=f"frame_n{n}_d{d}_e{e}", fn="frame", params=p))
        out.append(dict(name=f"guards_n{n}", fn="guards", params=dict(n=n)))
    for n in (3, 4, 5) if tier == "quick" else (3, 4, 5, 7):
        for d in (1, 2):
            out.append(dict(name=f"rates_n{n}_d{d}", fn="rates", params=dict(n=n, d=d)))
        out.append(dict(name=f"parabola_n{n}", fn="parabola", params=dict(n=n)))
    for n in (2, 3):
        out.append(dict(name=f"range_n{n}", fn="rng", params=dict(n=n, d=2)))
    return out


def arrays(W, n, d, e):
    ts = W.increasing("t", n, -1, 1) if n > 1 else W.vec("t", 1, -1, 1)
    return [ts] + [W.mat(s, n, d, -3, 3) for s in ("y", "yd", "ydd")] + [W.mat("m", n, e, -3, 3) if e else None]


def make(W, a):
    return W.cls("dmps.Trajectory")(*[None if x is None else W.np.array(x) for x in a])


def same(W, tr, a, msg, tol=None):
    def eq(x, y, m):
        if tol is None:
            W.eq(x, y, m)
        else:
            W.le(x - y, tol, m)
            W.le(y - x, tol, m)
    n, d = a[1].shape
    W.true(tr.length == n and tr.dim == d, msg + ": sizes")
    if tr.ys.shape != (n, d):
        return W.fail(msg + ": shape of positions")
    for x, y, m in zip((tr.ts, tr.ys, tr.yds, tr.ydds), a, ("times", "positions", "velocities", "accelerations")):
        eq(x, y, f"{msg}: {m}")
    if a[4] is None:
        W.true(not tr.has_misc() and tr.dim_misc == 0, msg + ": no miscellaneous variables")
    else:
        W.true(tr.has_misc() and tr.dim_misc == a[4].shape[1], msg + ": miscellaneous variables are kept")
        eq(tr.misc, a[4], msg + ": miscellaneous variables")


def cols(W, a):
    n = len(a[0])
    return W.np.concatenate([a[0].reshape(n, 1)] + a[1:4] + ([] if a[4] is None else [a[4]]), axis=1)


def matrix(W):
    n, d, e = (W.params[k] for k in "nde")
    T = W.cls("dmps.Trajectory")
    a = arrays(W, n, d, e)
    tr = make(W, a)
    same(W, tr, a, "constructed")
    W.eq(tr.as_matrix(), cols(W, a), "one row per sample: time, positions, velocities, accelerations, miscellaneous")
    same(W, T.from_matrix(tr.as_matrix(), e), a, "read back from the matrix")
    M = cols(W, a)
    keep = W.np.array(M)
    same(W, T.from_matrix(M, e), a, "read from a matrix")
    W.eq(M, keep, "the matrix is not modified")
    same(W, tr, a, "unchanged by viewing it")
    if d == 1:
        b = [x if x is None or x.ndim == 1 or i == 4 else x.reshape(n) for i, x in enumerate(a)]
        same(W, make(W, b), a, "constructed from one-dimensional arrays")
    if n > 1:
        new = W.mat("nm", n, 2, -3, 3)
        tr.misc = new
        same(W, tr, a[:4] + [new], "with new miscellaneous variables")


def file(W):
    n, d, e = (W.params[k] for k in "nde")
    T = W.cls("dmps.Trajectory")
    a = arrays(W, n, d, e)
    tr = make(W, a)
    f = W.tmpdir() + "/traj.txt"
    tr.savetxt(f)
    same(W, T.loadtxt(f, e), a, "loaded from the file", W.q(6, 10 ** 8))
    same(W, tr, a, "unchanged by saving it")


def frame(W):
    n, d, e = (W.params[k] for k in "nde")
    a = arrays(W, n, d, e)
    df = make(W, a).as_dataframe()
    names = ["t"] + [f"{s}{i}" for s in ("y", "yd", "ydd") for i in range(d)] + [f"misc{i}" for i in range(e)]
    W.true(list(df.columns) == names, "columns of the dataframe")
    M = cols(W, a)
    if list(df.columns) == names:
        for j, c in enumerate(names):
            v = list(df[c])
            W.true(len(v) == n, "one row per sample")
            for i in range(min(n, len(v))):
                W.eq(v[i], M[i, j], f"column {c}")


def guards(W):
    n = W.params["n"]
    T = W.cls("dmps.Trajectory")
    a = arrays(W, n, 2, 1)
    bad = W.mat("bad", n + 1, 2, -3, 3)
    narrow = W.mat("nar", n, 1, -3, 3)
    R = lambda f, m: W.raises(f, m, ValueError)
    R(lambda: T(a[0], bad, a[2], a[3], a[4]), "positions of another length are refused")
    R(lambda: T(a[0], a[1], bad, a[3], a[4]), "velocities of another length are refused")
    R(lambda: T(a[0], a[1], a[2], bad, a[4]), "accelerations of another length are refused")
    R(lambda: T(a[0], a[1], a[2], a[3], bad), "miscellaneous variables of another length are refused")
    R(lambda: T(a[0], a[1], narrow, a[3]), "velocities of another dimension are refused")
    R(lambda: T(a[0], a[1], a[2], narrow), "accelerations of another dimension are refused")
    tr = make(W, a)

    def setm():
        tr.misc = bad
    R(setm, "miscellaneous variables of another length are refused by the setter")
    same(W, tr, a, "unchanged after a refused assignment")


def grid(W, n):
    t0, dt = W.var("t0", -2, 2), W.var("dt", W.q(1, 50), 1)
    return W.arr([t0 + i * dt for i in range(n)]), dt


def central(W, x, dt):
    n = x.shape[0]
    rows = [(x[i + 1] - x[i - 1]) / (2 * dt) for i in range(1, n - 1)]
    return W.np.array([rows[0]] + rows + [rows[-1]])


def rates(W):
    n, d = W.params["n"], W.params["d"]
    T = W.cls("dmps.Trajectory")
    ts, dt = grid(W, n)
    y, v = W.mat("y", n, d, -3, 3), W.mat("v", n, d, -3, 3)
    keep = W.np.array(y), W.np.array(v), W.np.array(ts)
    c = lambda x: central(W, x, dt)
    tr = T(ts, y)
    W.eq(tr.dt_mean, dt, "mean time step")
    W.eq(tr.yds, c(y), "missing velocities are central differences of positions")
    W.eq(tr.ydds, c(c(y)), "missing accelerations are central differences of velocities")
    W.eq(tr.yddds(), c(c(c(y))), "jerks are central differences of accelerations")
    t2 = T(ts, y, v)
    W.eq(t2.yds, v, "given velocities are kept")
    W.eq(t2.ydds, c(v), "missing accelerations are central differences of the given velocities")
    t2.recompute_derivatives()
    W.eq(t2.yds, c(y), "recomputed velocities")
    W.eq(t2.ydds, c(c(y)), "recomputed accelerations")
    W.eq(t2.ys, y, "positions are kept")
    for a, b in zip((y, v, ts), keep):
        W.eq(a, b, "the arrays passed in are not modified")


def parabola(W):
    """exact for parabolas (positions at constant acceleration) away from the ends"""
    n = W.params["n"]
    ts, dt = grid(W, n)
    p, v, a = (W.var(s, -3, 3) for s in "pva")
    y = p + v * ts + a * ts * ts / 2
    tr = W.cls("dmps.Trajectory")(ts, y)
    W.true(tr.ys.shape == (n, 1), "one column")
    for i in range(1, n - 1):
        W.eq(tr.yds[i, 0], v + a * ts[i], "velocity of a movement at constant acceleration")
    for i in range(2, n - 2):
        W.eq(tr.ydds[i, 0], a, "acceleration of a movement at constant acceleration")


def rng(W):
    n, d = W.params["n"], W.params["d"]
    a = arrays(W, n, d, 0)
    tr = make(W, a)
    r = tr.get_range_per_dim()
    W.true(r.shape == (d,), "one range per dimension")
    for j in range(d):
        diffs = [a[1][i, j] - a[1][k, j] for i in range(n) for k in range(n)]
        for x in diffs:
            W.le(x, r[j], "no two positions are further apart than the range")
        m = diffs[0]
        for x in diffs:
            m = W.np.maximum(m, x)
        W.eq(r[j], m, "two positions are that far apart")
    W.eq(tr.y_init, a[1][0], "initial position")
    W.eq(tr.y_final, a[1][n - 1], "final position")
    tr.set_start_time_to_zero()
    W.eq(tr.ts, a[0] - a[0][0], "time starts at zero after a reset")
    W.eq(tr.duration, a[0][n - 1] - a[0][0], "with the same duration")
