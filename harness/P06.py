"""P06: least-squares regression solves the weighted, regularised normal equations."""

BOUNDS = ("1-3 samples (thorough 4), input dimension 1-2, with and without offset, arbitrary inputs, targets, weights >= 0 and "
          "regularization >= 0 for which the normal matrix is invertible; prediction at an arbitrary input")
OUTSIDE = "rank-deficient problems without regularization (the code raises LinAlgError or returns inaccurate numbers)"


def cases(tier):
    out = []
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for d in (1, 2):
            for off in (0, 1):
                for wt in (0, 1, 2):
                    for reg in (0, 1):
                        nb = d + off
                        if not reg and n < nb:
                            continue
                        if n == 3 and nb == 3 and not (wt == 0 and reg == 0) and tier == "quick":
                            continue
                        if n == 4 and nb == 3:
                            continue
                        out.append(dict(name=f"n{n}_d{d}_off{off}_w{wt}_reg{reg}", fn="fit",
                                        params=dict(n=n, d=d, off=off, wt=wt, reg=reg)))
    out.append(dict(name="exact_line", fn="exact", params={}))
    out.append(dict(name="weight_scale", fn="weight_scale", params={}))
    out.append(dict(name="permutation", fn="permutation", params={}))
    return out


def fit(W):
    n, d, off, wt, reg = (W.params[k] for k in ("n", "d", "off", "wt", "reg"))
    X = W.mat("x", n, d, -3, 3)
    y = W.vec("y", n, -3, 3)
    lam = W.pos("lam", 2) if reg else 0
    kw = {}
    w = [1] * n
    if wt:
        w = W.vec("w", n, 0, 2, strict_lo=True)
        kw["weights"] = w if wt == 1 else w.reshape(n, 1)
    fa = W.cls("functionapproximators.FunctionApproximatorWLS")(bool(off), lam)
    keepX, keepy = W.np.array(X), W.np.array(y)
    cols = [[X[i][j] for j in range(d)] + ([1] if off else []) for i in range(n)]
    nb = d + off
    M = [[sum(cols[i][a] * w[i] * cols[i][b] for i in range(n)) + (lam if a == b else 0) for b in range(nb)] for a in range(nb)]
    W.assume(det(M) != 0)
    m = fa.train(X, y, **kw)
    beta = [m["slope"][j] for j in range(d)] + ([m["offset"]] if off else [])
    W.true("offset" in m or not off, "there is an offset when asked for")
    for a in range(nb):
        rhs = sum(cols[i][a] * w[i] * y[i] for i in range(n))
        W.eq(sum(M[a][b] * beta[b] for b in range(nb)), rhs, "normal equations (X'WX + lambda I) beta = X'Wy", tol=1e-5)
    q = W.vec("q", d, -3, 3)
    p = fa.predict(W.arr([q]))
    W.eq(p.reshape(-1), W.arr([sum(q[j] * beta[j] for j in range(d)) + (beta[d] if off else 0)]), "prediction is linear")
    W.eq(X, keepX, "inputs are not modified")
    W.eq(y, keepy, "targets are not modified")
    W.true(fa.is_trained() and fa.dim_input() == d, "trained, with the dimension of the inputs")


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def exact(W):
    """data on a line is reproduced exactly, whatever the (positive) weights"""
    x, a, b = W.increasing("x", 3, gap_hi=2), W.var("a", -3, 3), W.var("b", -3, 3)
    fa = W.cls("functionapproximators.FunctionApproximatorWLS")()
    m = fa.train(x, a * x + b, weights=W.vec("w", 3, 0, 2, strict_lo=True))
    W.eq(m["slope"], W.arr([a]), "slope recovered", tol=1e-4)
    W.eq(m["offset"], b, "offset recovered", tol=1e-4)


def weight_scale(W):
    """without regularization only the ratio of the weights matters; equal weights mean no weights"""
    x, y, c = W.increasing("x", 3, gap_hi=2), W.vec("y", 3, -3, 3), W.pos("c", 5)
    w = W.vec("w", 3, 0, 2, strict_lo=True)
    C = W.cls("functionapproximators.FunctionApproximatorWLS")
    ms = []
    for ww in (w, c * w, c * W.np.ones(3), None):
        fa = C()
        ms.append(fa.train(x, y, weights=ww))
    for k in ("slope", "offset"):
        W.eq(ms[0][k], ms[1][k], "scaling all weights changes nothing", tol=1e-4)
        W.eq(ms[2][k], ms[3][k], "equal weights are no weights", tol=1e-4)


def permutation(W):
    x, y, w = W.increasing("x", 3, gap_hi=2), W.vec("y", 3, -3, 3), W.vec("w", 3, 0, 2, strict_lo=True)
    C = W.cls("functionapproximators.FunctionApproximatorWLS")
    a = C().train(x, y, weights=w)
    p = [2, 0, 1]
    b = C().train(x[p], y[p], weights=w[p])
    for k in ("slope", "offset"):
        W.eq(a[k], b[k], "the order of the samples does not matter", tol=1e-4)
