"""P24: distribution updates move the mean to the weighted average of the samples and leave everything else of the distribution alone."""

BOUNDS = ("1-3 samples, dimension 1-3, arbitrary samples, distributions and costs (elite-based weights: distinct costs), all three updaters and "
          "weighting methods, bounded and unbounded distributions")
OUTSIDE = "which of several equal costs a rank-based weighting prefers"
UPD = ("UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation")


def cases(tier):
    out = []
    for u in UPD:
        for n, d in ((1, 2), (2, 1), (2, 2), (3, 2)) + (() if tier == "quick" else ((3, 3), (4, 1))):
            out.append(dict(name=f"mean_{u}_n{n}_d{d}", fn="mean", params=dict(u=u, n=n, d=d, m="PI-BB")))
            if n > 1:
                out.append(dict(name=f"mean_{u}_elite_n{n}_d{d}", fn="mean", params=dict(u=u, n=n, d=d, m="CEM")))
        out.append(dict(name=f"mean_{u}_log", fn="mean", params=dict(u=u, n=3, d=1, m="CMA-ES")))
        for m in ("PI-BB", "CEM"):
            out.append(dict(name=f"laws_{u}_{m}", fn="laws", params=dict(u=u, n=2, d=2, m=m)))
        out.append(dict(name=f"best_{u}", fn="best", params=dict(u=u, n=3, d=2)))
        out.append(dict(name=f"bounded_{u}", fn="bounded", params=dict(u=u, n=2, d=2)))
        out.append(dict(name=f"defaults_{u}", fn="defaults", params=dict(u=u, n=2, d=1)))
    return out


def spd(W, d, tag="L"):
    """an arbitrary symmetric positive definite matrix"""
    L = [[W.var(f"{tag}{i}{j}", W.q(1, 5), 2) if i == j else W.var(f"{tag}{i}{j}", -2, 2) if j < i else W.const(0)
          for j in range(d)] for i in range(d)]
    return W.arr([[sum((L[i][k] * L[j][k] for k in range(1, d)), L[i][0] * L[j][0]) for j in range(d)] for i in range(d)])


def costs(W, n, m):
    c = W.vec("c", n, -5, 5)
    for i in range(n):
        for j in range(i):
            W.assume(c[i] != c[j])
    return c


def setup(W, m=None):
    p = W.params
    n, d = p["n"], p["d"]
    m = m or p["m"]
    mu, C = W.vec("mu", d, -3, 3), spd(W, d)
    dist = W.cls("bbo.DistributionGaussian")(mu, C)
    s = W.mat("s", n, d, -3, 3)
    c = costs(W, n, m)
    h = W.var("h", 0, 20, strict_lo=True) if m == "PI-BB" else 2
    upd = W.cls("bbo.updaters", p["u"])(eliteness=h, weighting_method=m)
    return mu, C, dist, s, c, h, upd


def mean(W):
    mu, C, dist, s, c, h, upd = setup(W)
    n, d = s.shape
    keep = [W.np.array(x) for x in (mu, C, s, c)]
    new, w = upd.update_distribution(dist, s, c)
    w0 = W.mod("dmpbbo.bbo.updaters").costs_to_weights(c, W.params["m"], h)
    W.eq(w, w0, "the weights are those of the costs, for the method and eliteness chosen")
    W.true(new.mean.shape == (d,), "shape of the mean")
    W.true(new.covar.shape == (d, d), "shape of the covariance")
    for k in range(d):
        W.eq(new.mean[k], sum((w0[i] * s[i, k] for i in range(1, n)), w0[0] * s[0, k]), "the mean is the weighted average of the samples")
        x = [s[i, k] for i in range(n)]
        hi = lo = x[0]
        if n == 2:
            if x[1] >= x[0]:
                hi = x[1]
            else:
                lo = x[1]
            W.le(new.mean[k], hi, "the mean does not leave the range of the samples (above)")
            W.le(lo, new.mean[k], "the mean does not leave the range of the samples (below)")
    W.eq(dist.mean, keep[0], "the distribution passed in keeps its mean")
    W.eq(dist.covar, keep[1], "the distribution passed in keeps its covariance")
    for a, b in zip((mu, C, s, c), keep):
        W.eq(a, b, "the arrays passed in are not modified")
    again, w2 = upd.update_distribution(dist, s, c)
    W.eq(again.mean, new.mean, "the same update gives the same mean")
    W.eq(again.covar, new.covar, "the same update gives the same covariance")
    # a list of cost components
    cc, _ = upd.update_distribution(dist, s, [W.arr([c[i], W.const(i)]) for i in range(n)])
    W.eq(cc.mean, new.mean, "only the total cost counts")


def laws(W):
    mu, C, dist, s, c, h, upd = setup(W)
    n, d = s.shape
    new, w = upd.update_distribution(dist, s, c)
    t = W.vec("t", d, -3, 3)
    D = W.cls("bbo.DistributionGaussian")
    moved, _ = upd.update_distribution(D(mu + t, C), s + t, c)
    W.eq(moved.mean, new.mean + t, "moving distribution and samples moves the updated mean")
    W.eq(moved.covar, new.covar, "and leaves the updated covariance")
    p = list(range(1, n)) + [0]
    perm, _ = upd.update_distribution(dist, W.arr([[s[i, k] for k in range(d)] for i in p]), W.arr([c[i] for i in p]))
    W.eq(perm.mean, new.mean, "the order of the samples does not matter (mean)")
    W.eq(perm.covar, new.covar, "the order of the samples does not matter (covariance)")
    same, _ = upd.update_distribution(dist, W.arr([[s[0, k] for k in range(d)] for i in range(n)]), c)
    W.eq(same.mean, s[0], "the mean becomes the sample if all samples are the same")


def best(W):
    p = W.params
    mu, C, dist, s, c, h, upd = setup(W, "CEM")
    upd = W.cls("bbo.updaters", p["u"])(eliteness=1, weighting_method="CEM")
    new, w = upd.update_distribution(dist, s, c)
    for i in range(p["n"]):
        if all(c[i] <= c[j] for j in range(p["n"])):
            W.eq(new.mean, s[i], "with one elite sample the mean becomes the best sample")


def bounded(W):
    p = W.params
    mu, C, dist, s, c, h, upd = setup(W, "CEM")
    lo, hi = W.vec("lo", p["d"], -5, -4), W.vec("hi", p["d"], 4, 5)
    B = W.cls("bbo.DistributionGaussianBounded")
    b = B(mu, C, lo, hi)
    nb, w = upd.update_distribution(b, s, c)
    n, _ = upd.update_distribution(dist, s, c)
    W.true(type(nb) is B, "a bounded distribution remains one")
    W.eq(nb.mean, n.mean, "bounds have no influence on the mean")
    W.eq(nb.covar, n.covar, "bounds have no influence on the covariance")
    W.eq(nb.lower_bound, lo, "the lower bound is kept")
    W.eq(nb.upper_bound, hi, "the upper bound is kept")


def defaults(W):
    mu, C, dist, s, c, h, upd = setup(W, "PI-BB")
    upd = W.cls("bbo.updaters", W.params["u"])()
    new, w = upd.update_distribution(dist, s, c)
    W.eq(w, W.mod("dmpbbo.bbo.updaters").costs_to_weights(c, upd.weighting_method, upd.eliteness), "the default weighting")
    W.eq(new.mean, w[0] * s[0] + w[1] * s[1], "weighted average")
