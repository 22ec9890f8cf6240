"""P07: Gaussian basis functions and their placement."""
from harness.fa import gauss

BOUNDS = ("1-3 basis functions (thorough 4), 1-3 samples, input dimension 1-3 with arbitrary reals for inputs, centers, widths>0; "
          "placement: 1-4 basis functions per dimension, 1-2 dimensions (thorough 3), 2-3 arbitrary samples, arbitrary "
          "intersection height in (0,1)")

OUTSIDE = "inputs so far from every center that all activations underflow to zero (exact arithmetic never does)"


def cases(tier):
    out = []
    for d in (1, 2, 3):
        for nb in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for ns in (1, 2) if tier == "quick" else (1, 2, 3):
                out.append(dict(name=f"act_d{d}_b{nb}_s{ns}", fn="act", params=dict(d=d, nb=nb, ns=ns, wide=False)))
            if nb > 1:  # the same without tiny widths: counterexamples are then representable as floats
                out.insert(0, dict(name=f"act_wide_d{d}_b{nb}", fn="act", params=dict(d=d, nb=nb, ns=1, wide=True)))
    out.append(dict(name="act_flat", fn="act_flat", params={}))
    grids = [(1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([(2, 3), (3, 3), (2, 2, 2), (2, 1, 3)] if tier != "quick" else [(2, 1, 2)])
    for g in grids:
        for ns in (2, 3) if len(g) == 1 else (2,):
            out.append(dict(name=f"grid_{'x'.join(map(str, g))}_s{ns}", fn="grid", params=dict(g=g, ns=ns)))
    out.append(dict(name="grid_scalar", fn="grid_scalar", params={}))
    out.append(dict(name="grid_one", fn="grid_one", params={}))
    out.append(dict(name="grid_bad", fn="grid_bad", params={}))
    return out


def G(W):
    return W.mod("dmpbbo.functionapproximators.basis_functions").Gaussian


def act(W):
    d, nb, ns = W.params["d"], W.params["nb"], W.params["ns"]
    x, c, w = W.mat("x", ns, d, -3, 3), W.mat("c", nb, d, -3, 3), W.mat("w", nb, d, W.q(1, 3) if W.params["wide"] else 0, 3, strict_lo=True)
    kx, kc, kw = W.np.array(x), W.np.array(c), W.np.array(w)
    a = G(W).activations(x, centers=c, widths=w, normalized=False)
    n = G(W).activations(x, centers=c, widths=w, normalized=True)
    W.true(a.shape == (ns, nb) and n.shape == (ns, nb), "one activation per sample and basis function")
    for i in range(ns):
        ref = [gauss(W, x[i], c[b], w[b]) for b in range(nb)]
        tot = sum(ref)
        for b in range(nb):
            W.eq(a[i, b], ref[b], "activation is exp(-sum (x-c)^2/(2w^2))")
            W.le(a[i, b], 1, "activation at most one")
            W.lt(0, a[i, b], "activation positive")
            if nb == 1:
                W.eq(n[i, b], 1, "a single normalised basis function is one everywhere")
            else:
                if W.symbolic or tot > 1e-290:  # (floats: not where everything underflows)
                    W.eq(n[i, b], ref[b] / tot, "normalised activations are proportional to the activations")
            W.le(n[i, b], 1, "normalised activation at most one")
        W.eq(sum(n[i, b] for b in range(nb)), 1, "normalised activations sum to one")
    at = G(W).activations(c, centers=c, widths=w, normalized=False)
    for b in range(nb):
        W.eq(at[b, b], 1, "activation is one at the center")
    W.eq(x, kx, "inputs not modified")
    W.eq(c, kc, "centers not modified")
    W.eq(w, kw, "widths not modified")


def act_flat(W):
    """one-dimensional data may be given as flat arrays"""
    x, c, w = W.vec("x", 2, -3, 3), W.vec("c", 2, -3, 3), W.vec("w", 2, 0, 3, strict_lo=True)
    for norm in (False, True):
        a = G(W).activations(x, centers=c, widths=w, normalized=norm)
        b = G(W).activations(x.reshape(2, 1), centers=c.reshape(2, 1), widths=w.reshape(2, 1), normalized=norm)
        W.eq(a, b, "flat arrays mean the same as columns")


def grid(W):
    g, ns = W.params["g"], W.params["ns"]
    d = len(g)
    x = W.mat("x", ns, d, -3, 3)
    h = W.var("h", 0, 1, strict_lo=True, strict_hi=True)
    if d > 1 or ns > 2:  # every dimension covers a non-empty range
        for j in range(d):
            W.assume(x[0, j] < x[1, j])
        if ns > 2:
            W.assume(x[2, 0] != x[0, 0])
    else:
        W.assume(x[0, 0] != x[1, 0])
    kx = W.np.array(x)
    C, Wd = G(W).get_centers_and_widths(x if d > 1 or ns > 2 else x.reshape(-1), list(g) if d > 1 else g[0], h)
    n = 1
    for k in g:
        n *= k
    W.true(C.shape == (n, d) and Wd.shape == (n, d), "one center and width per grid point and dimension")
    W.eq(x, kx, "inputs not modified")
    lo = [x[:, j].min() for j in range(d)]
    hi = [x[:, j].max() for j in range(d)]
    for b in range(n):
        r, idx = b, []
        for k in reversed(g):
            idx.insert(0, r % k)
            r //= k
        for j in range(d):
            k, i = g[j], idx[j]
            W.eq(C[b, j], lo[j] + (hi[j] - lo[j]) * (W.q(i, k - 1) if k > 1 else 0), "centers are equidistant on the input range")
            W.lt(0, Wd[b, j], "widths are positive")
            if k > 1:
                gap = (hi[j] - lo[j]) / (k - 1)
                W.eq(W.np.exp(-(gap / 2) * (gap / 2) / (2 * Wd[b, j] * Wd[b, j])), h,
                     "neighbouring basis functions intersect at the requested height")


def grid_one(W):
    """one basis function on an empty range is at the input"""
    x = W.np.full((2, 1), W.var("x", -3, 3))
    C, Wd = G(W).get_centers_and_widths(x, 1, W.q(7, 10))
    W.eq(C, x[:1], "the center is at the input")
    W.lt(0, Wd[0, 0], "widths are positive")


def grid_scalar(W):
    """one number of basis functions counts for every dimension"""
    x = W.mat("x", 2, 2, -3, 3)
    W.assume(x[0, 0] < x[1, 0])
    W.assume(x[0, 1] < x[1, 1])
    a = G(W).get_centers_and_widths(x, 2, W.q(1, 2))
    b = G(W).get_centers_and_widths(x, [2, 2], W.q(1, 2))
    W.eq(a[0], b[0], "centers")
    W.eq(a[1], b[1], "widths")
    c = G(W).get_centers_and_widths(x, 2)
    e = G(W).get_centers_and_widths(x, 2, W.q(7, 10))
    W.eq(c[1], e[1], "the default intersection height is 0.7")


def grid_bad(W):
    x = W.mat("x", 2, 3, -3, 3)
    for j in range(3):
        W.assume(x[0, j] < x[1, j])
    W.raises(lambda: G(W).get_centers_and_widths(x, [2, 2]), "two numbers for three dimensions are refused", ValueError)
