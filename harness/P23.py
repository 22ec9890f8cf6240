"""P23: costs are converted to weights that are a normalised, rank- or cost-based preference for low costs."""

BOUNDS = ("1-4 samples with arbitrary costs (scalar costs, or rows of 2 cost components), arbitrary temperatures of the exponential "
          "weighting, 1-5 elite samples for the rank-based ones (also more than there are samples)")
OUTSIDE = "which of several equal costs a rank-based weighting prefers; zero elite samples"


def cases(tier):
    out = []
    N = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)
    for n in N:
        out.append(dict(name=f"exp_n{n}", fn="expo", params=dict(n=n)))
        for mu in (1, 2, 3, 5):
            for m in ("CEM", "CMA-ES"):
                if n < 4 or mu in (2, 3):
                    out.append(dict(name=f"rank_{m}_n{n}_mu{mu}", fn="rank", params=dict(n=n, m=m, mu=mu)))
    for m in ("PI-BB", "CEM", "CMA-ES", "other"):
        for n in (2, 3):
            out.append(dict(name=f"laws_{m}_n{n}", fn="laws", params=dict(n=n, m=m)))
        out.append(dict(name=f"form_{m}", fn="form", params=dict(n=3 if m[0] == "C" else 2, m=m)))
    return out


def weights(W, costs, m, e):
    return W.mod("dmpbbo.bbo.updaters").costs_to_weights(costs, m, e)


def basic(W, w, n):
    W.true(w.shape == (n,), "one weight per sample")
    tot = 0
    for i in range(n):
        W.le(0, w[i], "no weight is negative")
        tot = tot + w[i]
    W.eq(tot, 1, "weights sum to one")


def expo(W):
    n = W.params["n"]
    c = W.vec("c", n, -5, 5)
    h = W.var("h", 0, 20, strict_lo=True)
    keep = W.np.array(c)
    w = weights(W, c, "PI-BB", h)
    basic(W, w, n)
    lo = hi = c[0]
    for x in c:
        if x < lo:
            lo = x
        if x > hi:
            hi = x
    if lo == hi:
        for i in range(n):
            W.eq(w[i], 1 / W.const(n), "equal costs get equal weights")
    else:
        e = [W.np.exp(-h * (x - lo) / (hi - lo)) for x in c]
        s = sum(e[1:], e[0])
        for i in range(n):
            W.lt(0, w[i], "every sample has some weight")
            W.eq(w[i], e[i] / s, "weights fall off exponentially with the cost relative to the range of costs")
    W.eq(c, keep, "the costs are not modified")


def distinct(W, c):
    n = len(c)
    for i in range(n):
        for j in range(i):
            W.assume(c[i] != c[j])


def rank(W):
    n, m, mu = W.params["n"], W.params["m"], W.params["mu"]
    c = W.vec("c", n, -5, 5)
    distinct(W, c)
    keep = W.np.array(c)
    w = weights(W, c, m, mu)
    basic(W, w, n)
    L = [W.np.log(W.const(mu) + W.q(1, 2)) - W.np.log(W.const(r + 1)) if m == "CMA-ES" else W.const(1) for r in range(min(n, mu))]
    s = sum(L[1:], L[0])
    for i in range(n):
        r = sum(1 for j in range(n) if c[j] < c[i])
        W.eq(w[i], L[r] / s if r < mu else 0, "weight depends on the rank of the cost" if r < mu else "samples that are not elite get no weight")
    W.eq(c, keep, "the costs are not modified")


def laws(W):
    n, m = W.params["n"], W.params["m"]
    c = W.vec("c", n, -5, 5)
    e = W.var("h", 0, 20, strict_lo=True) if m[0] != "C" else 2
    if m[0] != "C" and W.choose(2):
        c = W.arr([c[0], c[0]] + [c[i] for i in range(2, n)])      # ties
        for i in range(2, n):
            W.assume(c[i] != c[0])
    else:
        distinct(W, c)
    w = weights(W, c, m, e)
    basic(W, w, n)
    for i in range(n):
        for j in range(n):
            if i != j and c[i] < c[j]:
                W.le(w[j], w[i], "a lower cost never gets a lower weight")
    k = W.const([2, 3][W.choose(2)]) if m[0] == "C" else W.var("k", W.q(1, 10), 5)
    s = W.var("s", -5, 5)
    W.eq(weights(W, c * k + s, m, e), w, "weights do not depend on offset and unit of the costs")
    p = list(range(1, n)) + [0]
    W.eq(weights(W, W.arr([c[i] for i in p]), m, e), W.arr([w[i] for i in p]), "reordering the samples reorders the weights")


def form(W):
    """costs as rows whose first entry is the total cost"""
    n, m = W.params["n"], W.params["m"]
    c = W.mat("c", n, 2, -5, 5)
    if m[0] == "C":
        distinct(W, c[:, 0])
    e = W.var("h", 0, 20, strict_lo=True) if m[0] != "C" else 2
    keep = W.np.array(c)
    w = weights(W, c[:, 0], m, e)
    W.eq(weights(W, c, m, e), w, "only the total cost (first column) counts")
    W.eq(weights(W, [c[i] for i in range(n)], m, e), w, "costs as a list of arrays")
    W.eq(weights(W, [[c[i, 0], c[i, 1]] for i in range(n)], m, e), w, "costs as a list of lists")
    W.eq(weights(W, [c[i, 0] for i in range(n)], m, e), w, "costs as a list of numbers")
    if m == "other":
        W.eq(weights(W, c, "PI-BB", e), w, "unknown methods fall back to the exponential weighting")
    W.eq(c, keep, "the costs are not modified")
