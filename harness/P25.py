"""P25: covariance updates: none, decay, or weighted covariance of the samples, limited per dimension, and always a covariance matrix."""
from harness.P24 import spd, costs

BOUNDS = ("2-3 samples, dimension 1-3 (limits on full matrices: 1-2), arbitrary samples, distributions, costs, decay factors, "
          "learning rates, scalar and per-dimension limits; 1-3 successive updates")
OUTSIDE = "which of several equal costs a rank-based weighting prefers; limits with minimum above maximum"


def cases(tier):
    out = []
    for n, d in ((2, 1), (2, 2), (3, 2), (2, 3)):
        for m in ("PI-BB", "CEM"):
            out.append(dict(name=f"mean_only_{m}_n{n}_d{d}", fn="fixed", params=dict(n=n, d=d, m=m)))
            for diag in (False, True):
                for lr in ("one", "any", "none"):
                    out.append(dict(name=f"adapt_{m}_{lr}_diag{int(diag)}_n{n}_d{d}", fn="adapt", params=dict(n=n, d=d, m=m, lr=lr, diag=diag)))
    for k in (1, 2, 3):
        out.append(dict(name=f"decay_{k}", fn="decay", params=dict(n=2, d=2, m="CEM", k=k)))
    out.append(dict(name="decay_exp", fn="decay", params=dict(n=2, d=2, m="PI-BB", k=1)))
    for d in (1, 2):
        for diag in (False, True):
            for form in ("scalar", "vector", "min", "max"):
                out.append(dict(name=f"limits_{form}_diag{int(diag)}_d{d}", fn="limits", params=dict(n=2, d=d, m="CEM", diag=diag, form=form)))
    out.append(dict(name="limits_diag_d3", fn="limits", params=dict(n=2, d=3, m="CEM", diag=True, form="vector")))
    for form in ("scalar", "vector", "min", "max"):
        out.append(dict(name=f"psd_limits_{form}", fn="psd_limits", params=dict(n=1, d=2, form=form)))
    for d in (1, 2):
        for diag in (False, True):
            out.append(dict(name=f"psd_adapt_diag{int(diag)}_d{d}", fn="psd", params=dict(n=2, d=d, m="CEM", diag=diag)))
    out.append(dict(name="guards", fn="guards", params={}))
    return out


def setup(W, kind, **kw):
    p = W.params
    n, d, m = p["n"], p["d"], p["m"]
    mu, C = W.vec("mu", d, -3, 3), spd(W, d)
    dist = W.cls("bbo.DistributionGaussian")(mu, C)
    s, c = W.mat("s", n, d, -3, 3), costs(W, n, m)
    h = W.var("h", 0, 20, strict_lo=True) if m == "PI-BB" else 2
    w = W.mod("dmpbbo.bbo.updaters").costs_to_weights(c, m, h)
    upd = W.cls("bbo.updaters", kind)(eliteness=h, weighting_method=m, **kw)
    return mu, C, dist, s, c, w, upd


def fixed(W):
    mu, C, dist, s, c, w, upd = setup(W, "UpdaterMean")
    new, _ = upd.update_distribution(dist, s, c)
    W.eq(new.covar, C, "the covariance stays the same when only the mean is updated")


def decay(W):
    f = W.var("f", 0, 1, strict_lo=True)
    mu, C, dist, s, c, w, upd = setup(W, "UpdaterCovarDecay", covar_decay_factor=f)
    x, k = dist, W.params["k"]
    for i in range(k):
        y, _ = upd.update_distribution(x, s, c)
        W.eq(y.covar, f * f * x.covar, "each update scales standard deviations by the decay factor")
        x = y
    W.eq(x.covar, f ** (2 * k) * C, "successive updates")
    W.eq(dist.covar, C, "the initial distribution is not modified")


def target(W, mu, s, w, d, n, diag):
    E = [[s[i, k] - mu[k] for k in range(d)] for i in range(n)]
    return [[W.const(0) if diag and a != b else sum((w[i] * E[i][a] * E[i][b] for i in range(1, n)), w[0] * E[0][a] * E[0][b])
             for b in range(d)] for a in range(d)]


def adapt(W):
    p = W.params
    n, d, diag = p["n"], p["d"], p["diag"]
    lr = {"one": None, "any": W.var("lr", 0, 1), "none": 0.0}[p["lr"]]
    kw = {} if lr is None else dict(learning_rate=lr)
    mu, C, dist, s, c, w, upd = setup(W, "UpdaterCovarAdaptation", diag_only=diag, **kw)
    keep = [W.np.array(x) for x in (mu, C, s, c)]
    new, _ = upd.update_distribution(dist, s, c)
    T = target(W, mu, s, w, d, n, diag)
    l = 1 if lr is None else lr
    for a in range(d):
        for b in range(d):
            W.eq(new.covar[a, b], (1 - l) * C[a, b] + l * T[a][b],
                 "the covariance moves to the weighted covariance of the samples about the current mean, at the learning rate")
    for a, b in zip((mu, C, s, c), keep):
        W.eq(a, b, "the arrays passed in are not modified")
    W.eq(dist.covar, keep[1], "the distribution passed in is not modified")


def limits(W):
    p = W.params
    n, d, diag, form = p["n"], p["d"], p["diag"], p["form"]
    lo = hi = None
    if form != "max":
        lo = W.vec("lo", d, W.q(1, 20), 1) if form == "vector" else W.var("lo", W.q(1, 20), 1)
    if form != "min":
        hi = W.vec("hi", d, 1, 3) if form == "vector" else W.var("hi", 1, 3)
    mu, C, dist, s, c, w, upd = setup(W, "UpdaterCovarAdaptation", diag_only=diag, diagonal_min=lo, diagonal_max=hi)
    new, _ = upd.update_distribution(dist, s, c)
    T = target(W, mu, s, w, d, n, diag)
    at = lambda x, i: x[i] if form == "vector" else x
    for i in range(d):
        v = T[i][i]
        if hi is not None:
            W.le(new.covar[i, i], at(hi, i) ** 2, "variances do not exceed the maximum")
            if v > at(hi, i) ** 2:
                v = at(hi, i) ** 2
        if lo is not None:
            W.le(at(lo, i) ** 2, new.covar[i, i], "variances do not fall below the minimum")
            if v < at(lo, i) ** 2:
                v = at(lo, i) ** 2
        W.eq(new.covar[i, i], v, "variances within the limits are kept, others become the limit")
    if lo is not None:
        W.eq(upd.diagonal_min, lo, "the limits are not modified")


def psd_limits(W):
    """the limits applied to an arbitrary covariance matrix (learning rate 0)"""
    p = W.params
    n, d, form = p["n"], p["d"], p["form"]
    lo = hi = None
    if form != "max":
        lo = W.vec("lo", d, W.q(1, 20), 1) if form == "vector" else W.var("lo", W.q(1, 20), 1)
    if form != "min":
        hi = W.vec("hi", d, 1, 3) if form == "vector" else W.var("hi", 1, 3)
    mu, s, c = W.vec("mu", d, -3, 3), W.mat("s", n, d, -3, 3), costs(W, n, "CEM")
    v = W.vec("v", d, 0, 6, strict_lo=True)
    r = W.var("c01", -6, 6)
    W.assume(r * r <= v[0] * v[1])
    C = W.arr([[v[0], r], [r, v[1]]])
    dist = W.cls("bbo.DistributionGaussian")(mu, C)
    U = W.cls("bbo.updaters", "UpdaterCovarAdaptation")
    upd = U(eliteness=1, weighting_method="CEM", learning_rate=0.0, diagonal_min=lo, diagonal_max=hi)
    new, _ = upd.update_distribution(dist, s, c)
    valid(W, new.covar, d)
    W.eq(dist.covar, W.arr([[v[0], r], [r, v[1]]]), "the distribution passed in is not modified")


def valid(W, C, d):
    for i in range(d):
        W.le(0, C[i, i], "variances are not negative")
        for j in range(i):
            W.eq(C[i, j], C[j, i], "the covariance is symmetric")
            W.le(C[i, j] * C[i, j], C[i, i] * C[j, j], "correlations do not exceed one (the matrix is positive semi-definite)")


def psd(W):
    p = W.params
    lr = W.var("lr", 0, 1)
    mu, C, dist, s, c, w, upd = setup(W, "UpdaterCovarAdaptation", diag_only=p["diag"], learning_rate=lr)
    new, _ = upd.update_distribution(dist, s, c)
    valid(W, new.covar, p["d"])


def guards(W):
    U = W.cls("bbo.updaters", "UpdaterCovarAdaptation")
    x = W.var("x", -3, 3)
    if x > 1 or x < 0:
        W.raises(lambda: U(learning_rate=x), "learning rates outside [0,1] are refused", ValueError)
    else:
        W.eq(U(learning_rate=x).learning_rate, x, "learning rates in [0,1] are accepted")
