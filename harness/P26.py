"""P26: samples have the mean and covariance of the distribution, are independent, and respect bounds."""
from harness.P24 import spd

BOUNDS = ("dimension 1-3, arbitrary means, positive definite covariances, bounds (one, both or none, per dimension or scalar); mean and covariance of "
          "samples are derived exactly from those of the random numbers drawn, 1-3 samples at a time; eigenvalues: dimension 1-2")
OUTSIDE = "the quality of numpy's random numbers (assumed to have the mean and covariance requested)"


def cases(tier):
    out = []
    for d in (1, 2, 3):
        out.append(dict(name=f"moments_d{d}", fn="moments", params=dict(d=d)))
        out.append(dict(name=f"guards_d{d}", fn="guards", params=dict(d=d)))
        for b in ("both", "lower", "upper", "none", "scalar"):
            if d < 3 or b in ("none", "lower"):
                out.append(dict(name=f"bounds_{b}_d{d}", fn="bounds", params=dict(d=d, b=b)))
    for d in (1, 2):
        out.append(dict(name=f"eigen_d{d}", fn="eigen", params=dict(d=d)))
    out.append(dict(name="eigen_diag", fn="eigen_diag", params={}))
    return out


def dist(W, d):
    mu, C = W.vec("mu", d, -3, 3), spd(W, d)
    return mu, C, W.cls("bbo.DistributionGaussian")(mu, C)


def moments(W):
    d = W.params["d"]
    mu, C, D = dist(W, d)
    keep = W.np.array(mu), W.np.array(C)
    m, V, X = W.moments(D.generate_samples)
    tol = dict(tol=0.05, scale=4.0) if not W.symbolic else {}
    W.eq(m, mu, "the expected value of a sample is the mean", **tol)
    W.eq(V, C, "the covariance of a sample is the covariance", **tol)
    W.eq(X, W.np.zeros((d, d)), "samples are independent (uncorrelated)", **tol)
    for n in (1, 2, 3):
        s = D.generate_samples(n)
        W.true(s.shape == (n, d), "one row per sample, one column per dimension")
    W.true(D.generate_samples().shape == (1, d), "one sample by default")
    W.eq(D.mean, keep[0], "sampling does not change the mean")
    W.eq(D.covar, keep[1], "sampling does not change the covariance")
    if d == 1:
        E = W.cls("bbo.DistributionGaussian")(mu[0], C[0, 0])
        W.eq(E.mean, mu, "scalar mean")
        W.eq(E.covar, C, "scalar variance")
        W.true(E.generate_samples(2).shape == (2, 1), "samples of a scalar distribution")


def bounds(W):
    d, b = W.params["d"], W.params["b"]
    mu, C, D = dist(W, d)
    lo = hi = None
    if b in ("both", "lower"):
        lo = W.vec("lo", d, -4, 0)
    if b in ("both", "upper"):
        hi = W.vec("hi", d, 0, 4)
    if b == "scalar":
        lo, hi = W.var("slo", -4, 0), W.var("shi", 0, 4)
    B = W.cls("bbo.DistributionGaussianBounded")
    D = B(mu, C, lo, hi) if b != "none" or W.choose(2) else B(mu, C)
    W.eq(D.mean, mu, "mean")
    W.eq(D.covar, C, "covariance")
    drawn = []
    G = W.cls("bbo.DistributionGaussian")
    real = G.generate_samples

    def spy(self, n=1):
        drawn.append(real(self, n))
        return drawn[-1]
    G.generate_samples = spy
    try:
        s = D.generate_samples(2 if d < 3 else 1)
    finally:
        G.generate_samples = real
    at = lambda x, j: x if b == "scalar" else x[j]
    for i in range(s.shape[0]):
        for j in range(d):
            if lo is not None:
                W.le(at(lo, j), s[i, j], "no sample lies below the lower bound")
            if hi is not None:
                W.le(s[i, j], at(hi, j), "no sample lies above the upper bound")
            if drawn:
                x = drawn[0][i, j]
                if (lo is None or x >= at(lo, j)) and (hi is None or x <= at(hi, j)):
                    W.eq(s[i, j], x, "samples within the bounds are kept")
                elif lo is not None and x < at(lo, j):
                    W.eq(s[i, j], at(lo, j), "samples below are moved to the lower bound")
                else:
                    W.eq(s[i, j], at(hi, j), "samples above are moved to the upper bound")
    W.eq(D.mean, mu, "sampling does not change the mean")


def guards(W):
    d = W.params["d"]
    mu, C = W.vec("mu", d + 1, -3, 3), spd(W, d)
    W.raises(lambda: W.cls("bbo.DistributionGaussian")(mu, C), "mean and covariance of different sizes are refused", ValueError)
    W.raises(lambda: W.cls("bbo.DistributionGaussianBounded")(mu, C), "also for bounded distributions", ValueError)


def eigen(W):
    """the largest eigenvalue: C - l*I is negative semi-definite and singular"""
    d = W.params["d"]
    mu, C, D = dist(W, d)
    l = D.max_eigen_value()
    if d == 1:
        W.eq(l, C[0, 0], "the eigenvalue of a variance")
        return
    W.eq((C[0, 0] - l) * (C[1, 1] - l), C[0, 1] * C[1, 0], "it is an eigenvalue of the covariance")
    W.le(C[0, 0] + C[1, 1], 2 * l, "no eigenvalue is larger")
    W.eq(D.covar, C, "the covariance is not changed")


def eigen_diag(W):
    v = W.vec("v", 3, 0, 4, strict_lo=True)
    z = W.const(0)
    D = W.cls("bbo.DistributionGaussian")(W.vec("mu", 3, -3, 3), W.arr([[v[i] if i == j else z for j in range(3)] for i in range(3)]))
    l = D.max_eigen_value()
    for x in v:
        W.le(x, l, "the largest variance")
    W.true(any(bool(x >= l - W.q(1, 10 ** 6)) for x in v), "is one of the variances")
