"""P21: appending, prepending, padding and cropping trajectories keep samples and times consistent."""

BOUNDS = ("trajectories of 1-4 samples with arbitrary increasing times and values, dimension 1-2, with and without miscellaneous "
          "variables of dimension 1-2; up to 4 samples of padding; every crop by index, and every crop by time with arbitrary "
          "start and end; sequences of 2-3 operations")
OUTSIDE = "appending to a trajectory of a single sample (no time step is known)"


def cases(tier):
    out = []
    for n in (2, 3):
        for m in (1, 2, 3):
            for d, e, f in ((1, 0, 0), (2, 1, 1), (1, 2, 2), (1, 1, 0), (1, 0, 1)):
                if (n, m) != (2, 2) and (d, e, f) != (2, 1, 1):
                    continue
                p = dict(n=n, m=m, d=d, e=e, f=f)
                out.append(dict(name=f"join_{n}_{m}_d{d}_misc{e}{f}", fn="join", params=p))
        for k in (1, 2, 3, 4):
            out.append(dict(name=f"pad_n{n}_k{k}", fn="pad", params=dict(n=n, k=k, d=2)))
        out.append(dict(name=f"crop_index_n{n + 1}", fn="crop_index", params=dict(n=n + 1, d=2, e=1)))
        out.append(dict(name=f"crop_time_n{n}", fn="crop_time", params=dict(n=n, d=1, e=1)))
        out.append(dict(name=f"crop_time_n{n}_nomisc", fn="crop_time", params=dict(n=n, d=2, e=0)))
    out.append(dict(name="crop_time_n4", fn="crop_time", params=dict(n=4, d=1, e=0)))
    for k in range(4):
        out.append(dict(name=f"sequence_{k}", fn="sequence", params=dict(k=k)))
    return out


def traj(W, tag, n, d, e, ones=False):
    ts = W.increasing(tag + "t", n, -1, 1) if n > 1 else W.vec(tag + "t", 1, -1, 1)
    a = [ts] + [W.mat(tag + s, n, d, -3, 3) for s in ("y", "yd", "ydd")]
    a.append(W.mat(tag + "m", n, e, -3, 3) if e else None)
    tr = W.cls("dmps.Trajectory")(*[None if x is None else W.np.array(x) for x in a])
    return tr, a


def cat(W, *xs):
    return W.np.concatenate(xs)


def content(W, tr, a, msg):
    """the trajectory consists of exactly these arrays, and everything derived from them is consistent"""
    n = len(a[0])
    W.true(tr.length == n, msg + ": number of samples")
    if tr.length != n:
        return
    W.eq(tr.ts, a[0], msg + ": times")
    W.eq(tr.ys, a[1], msg + ": positions")
    W.eq(tr.yds, a[2], msg + ": velocities")
    W.eq(tr.ydds, a[3], msg + ": accelerations")
    if a[4] is None:
        W.true(not tr.has_misc() and tr.dim_misc == 0, msg + ": no miscellaneous variables")
    else:
        W.true(tr.has_misc() and tr.dim_misc == a[4].shape[1], msg + ": miscellaneous variables are kept")
        W.eq(tr.misc, a[4], msg + ": miscellaneous variables")
    W.eq(tr.duration, a[0][n - 1] - a[0][0], msg + ": duration")
    W.eq(tr.y_init, a[1][0], msg + ": initial position")
    W.eq(tr.y_final, a[1][n - 1], msg + ": final position")
    if n > 1:
        W.eq(tr.dt_mean, (a[0][n - 1] - a[0][0]) / (n - 1), msg + ": mean time step")
        for i in range(1, n):
            W.lt(tr.ts[i - 1], tr.ts[i], msg + ": times increase")
    if n > 2:
        dt = (a[0][n - 1] - a[0][0]) / (n - 1)
        W.eq(tr.yddds()[1], (a[3][2] - a[3][0]) / (2 * dt), msg + ": jerk")
    cols = [a[0].reshape(n, 1), a[1], a[2], a[3]] + ([] if a[4] is None else [a[4]])
    W.eq(tr.as_matrix(), W.np.concatenate(cols, axis=1), msg + ": matrix")


def appended(W, a, b, dt):
    n = len(a[0])
    ts = cat(W, a[0], b[0] - b[0][0] + a[0][n - 1] + dt)
    return [ts] + [cat(W, a[i], b[i]) for i in (1, 2, 3)] + [None if a[4] is None or b[4] is None else cat(W, a[4], b[4])]


def mean_dt(a):
    n = len(a[0])
    return (a[0][n - 1] - a[0][0]) / (n - 1)


def prepended(W, a, b):
    """b in front of a"""
    m = len(b[0])
    dt = mean_dt(b) if m > 1 else mean_dt(a)
    ts = cat(W, b[0], a[0] - a[0][0] + b[0][m - 1] + dt)
    return [ts] + [cat(W, b[i], a[i]) for i in (1, 2, 3)] + [None if a[4] is None or b[4] is None else cat(W, b[4], a[4])]


def join(W):
    n, m, d, e, f = (W.params[k] for k in "nmdef")
    if e and f and e != f:
        raise AssertionError
    ta, a = traj(W, "a", n, d, e)
    tb, b = traj(W, "b", m, d, f)
    ta.append(tb)
    content(W, ta, appended(W, a, b, mean_dt(a)), "appended")
    if m > 1:
        content(W, tb, b, "the appended trajectory itself is not modified")
    tc = W.cls("dmps.Trajectory")(*[None if x is None else W.np.array(x) for x in a])
    src = tc.ts
    keep = W.np.array(src)
    tc.prepend(tb)
    content(W, tc, prepended(W, a, b), "prepended")
    W.eq(src, keep, "prepending does not modify the time array handed out before")
    if m > 1:
        content(W, tb, b, "the prepended trajectory itself is not modified")


def pad(W):
    n, k, d = W.params["n"], W.params["k"], W.params["d"]
    for front in (False, True):
        tr, a = traj(W, "f" if front else "e", n, d, 1)
        (tr.pad_front if front else tr.pad_end)(k)
        dt = mean_dt(a)
        z = W.np.zeros((k, d))
        pts = W.arr([i * dt for i in range(k)])
        row = a[1][0] if front else a[1][n - 1]
        p = [pts, W.np.tile(row, (k, 1)), z, z, None]
        if front:
            exp = [cat(W, pts, a[0] - a[0][0] + k * dt)] + [cat(W, p[i], a[i]) for i in (1, 2, 3)] + [None]
        else:
            exp = [cat(W, a[0], pts + a[0][n - 1] + dt)] + [cat(W, a[i], p[i]) for i in (1, 2, 3)] + [None]
        content(W, tr, exp, "padded at the front" if front else "padded at the end")


def crop_index(W):
    n, d, e = W.params["n"], W.params["d"], W.params["e"]
    tr, a = traj(W, "a", n, d, e)
    i = W.choose(n)
    j = i + 1 + W.choose(n + 1 - i)
    tr.crop(i, j)
    content(W, tr, [None if x is None else x[i:j] for x in a], "cropped by index")
    W.raises(lambda: tr.crop(1, 1), "an empty range is refused", ValueError)
    W.raises(lambda: tr.crop(2, 1), "a reversed range is refused", ValueError)


def crop_time(W):
    n, d, e = W.params["n"], W.params["d"], W.params["e"]
    tr, a = traj(W, "a", n, d, e)
    s, t = W.var("start", -2, 4), W.var("end", -2, 4)
    W.assume(s < t)
    tr.crop(s, t, True)
    if s > a[0][n - 1] or t < a[0][0]:
        content(W, tr, a, "a range outside the trajectory leaves it alone")
        return
    idx = [i for i in range(n) if a[0][i] >= s and a[0][i] < t]
    if not idx:
        W.true(tr.length == 0, "no sample lies in the range")
        return
    content(W, tr, [None if x is None else x[idx[0]:idx[-1] + 1] for x in a], "cropped by time")


def sequence(W):
    k = W.params["k"]
    tr, a = traj(W, "a", 3, 1, 0)
    tb, b = traj(W, "b", 2, 1, 0)
    if k == 0:
        tr.crop(0, 2)
        a = [None if x is None else x[:2] for x in a]
        tr.append(tb)
        content(W, tr, appended(W, a, b, mean_dt(a)), "crop, append")
    elif k == 1:
        tr.append(tb)
        a = appended(W, a, b, mean_dt(a))
        tr.set_start_time_to_zero()
        a[0] = a[0] - a[0][0]
        tr.append(tb)
        content(W, tr, appended(W, a, b, mean_dt(a)), "append, reset time, append")
    elif k == 2:
        tr.prepend(tb)
        a = prepended(W, a, b)
        tr.append(tb)
        content(W, tr, appended(W, a, b, mean_dt(a)), "prepend, append")
    else:
        tr.pad_end(1)
        tr.crop(0, 3)
        content(W, tr, a, "pad, crop back")
        tr.prepend(tr)
        content(W, tr, prepended(W, a, a), "prepend to itself")
