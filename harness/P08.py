"""P08: training and prediction of RBFN, LWR and GPR implement their definitions."""
from harness.fa import KINDS, cls, trained, predict_ref, gauss

BOUNDS = ("prediction: 1-2 basis functions (thorough 3), input dimension 1-2, arbitrary model parameters and inputs; training: "
          "2-3 samples, 1-2 basis functions per dimension, arbitrary targets and regularization, arbitrary inputs in one dimension "
          "and for GPR, inputs on an arbitrary rectangle in two dimensions")


def cases(tier):
    out = []
    for k in KINDS:
        for d in (1, 2):
            for nb in (1, 2) if tier == "quick" else (1, 2, 3):
                if k.startswith("WLS") and nb > 1:
                    continue
                out.append(dict(name=f"predict_{k}_d{d}_b{nb}", fn="predict", params=dict(k=k, d=d, nb=nb)))
    for d, n, nb in ((1, 2, 1), (1, 2, 2), (1, 3, 2), (2, 2, 1), (2, 4, 2)):
        for reg in (0, 1):
            if nb ** d > n and not reg:
                continue
            out.append(dict(name=f"rbfn_d{d}_n{n}_b{nb}_reg{reg}", fn="train", params=dict(k="RBFN", d=d, n=n, nb=nb, reg=reg)))
            if n >= d + 1 or reg:
                out.append(dict(name=f"lwr_d{d}_n{n}_b{nb}_reg{reg}", fn="train", params=dict(k="LWR", d=d, n=n, nb=nb, reg=reg)))
    for d in (1, 2):
        for n in (1, 2):
            out.append(dict(name=f"gpr_d{d}_n{n}", fn="train_gpr", params=dict(d=d, n=n)))
    out.append(dict(name="gpr_lengths", fn="gpr_lengths", params={}))
    out.append(dict(name="defaults", fn="defaults", params={}))
    return out


def predict(W):
    k, d, nb = W.params["k"], W.params["d"], W.params["nb"]
    fa, m = trained(W, k, d, nb)
    x = W.mat("x", 2, d, -3, 3)
    y = fa.predict(x)
    for i in range(2):
        W.eq(y[i], predict_ref(W, k, m, x[i]), f"{k} prediction follows its definition")


def samples(W, d, n):
    """arbitrary samples that span a non-empty range in every dimension"""
    if d == 1:
        t = W.increasing("x", 2, gap_hi=4)
        rows = [t[0], t[1]] + [t[0] + (t[1] - t[0]) * W.var(f"f{i}", 0, 1) for i in range(n - 2)]
        if n > 2:
            rows = [rows[0]] + rows[2:] + [rows[1]]
        return W.arr(rows).reshape(n, 1)
    a, b = W.increasing("xa", 2, gap_hi=4), W.increasing("xb", 2, gap_hi=4)
    pts = [(0, 0), (1, 1), (0, 1), (1, 0)][:n]
    return W.arr([[a[i], b[j]] for i, j in pts])


def train(W):
    k, d, n, nb, reg = (W.params[x] for x in ("k", "d", "n", "nb", "reg"))
    X, y = samples(W, d, n), W.vec("y", n, -3, 3)
    h = W.q(7, 10) if k == "RBFN" else W.q(1, 2)
    lam = W.pos("lam", 2) if reg else 0
    fa = cls(W, k)([nb] * d if d > 1 else nb, h, lam)
    flat = W.params["d"] == 1 and n == 2
    keep = W.np.array(X)
    m = fa.train(X.reshape(-1) if flat else X, y)
    W.eq(X, keep, "inputs not modified")
    Gs = W.mod("dmpbbo.functionapproximators.basis_functions").Gaussian
    C, Wd = Gs.get_centers_and_widths(X, [nb] * d, h)
    W.eq(m["centers"], C, "centers are placed on the input range")
    W.eq(m["widths"], Wd, "widths follow from the intersection height")
    N = nb ** d
    A = [[gauss(W, X[i], C[b], Wd[b]) for b in range(N)] for i in range(n)]
    if k == "RBFN":
        w = m["weights"].reshape(-1)
        for a in range(N):
            lhs = sum(sum(A[i][a] * A[i][b] for i in range(n)) * w[b] for b in range(N)) + lam * w[a]
            W.eq(lhs, sum(A[i][a] * y[i] for i in range(n)), "the weights solve the regularised least-squares problem", tol=1e-4)
        q = W.mat("q", 1, d, -3, 3)
        W.eq(fa.predict(q), W.arr([sum(gauss(W, q[0], C[b], Wd[b]) * w[b] for b in range(N))]), "prediction", tol=1e-5)
        return
    if N > 1:
        T = [sum(r) for r in A]
    for b in range(N):
        om = [A[i][b] / T[i] if N > 1 else 1 for i in range(n)]
        s, o = m["slopes"][b], m["offsets"].reshape(-1)[b]
        beta = [s[j] for j in range(d)] + [o]
        Z = [[X[i][j] for j in range(d)] + [1] for i in range(n)]
        for a in range(d + 1):
            lhs = sum(sum(Z[i][a] * om[i] * Z[i][c] for i in range(n)) * beta[c] for c in range(d + 1)) + lam * beta[a]
            W.eq(lhs, sum(Z[i][a] * om[i] * y[i] for i in range(n)),
                 "every local model solves its weighted regularised least-squares problem", tol=1e-4)


def train_gpr(W):
    d, n = W.params["d"], W.params["n"]
    X, y = W.mat("x", n, d, -3, 3), W.vec("y", n, -3, 3)
    for i in range(n):
        for j in range(i):
            W.assume((X[i, 0] - X[j, 0]) * (X[i, 0] - X[j, 0]) > W.q(1, 10))
    sig, l = W.pos("sig", 3), W.pos("l", 3)
    fa = cls(W, "GPR")(sig, l)
    fa.train(X, y)
    W.eq(fa.predict(X), y, "a Gaussian process interpolates its training data", tol=1e-4)
    q = W.mat("q", 2, d, -3, 3)
    p = fa.predict(q)
    # k(q,X) K^-1 y by Cramer's rule
    ls = [l] * d
    K = [[sig * gauss(W, X[i], X[j], ls) for j in range(n)] for i in range(n)]
    for r in range(2):
        kq = [sig * gauss(W, q[r], X[j], ls) for j in range(n)]
        if n == 1:
            W.eq(p[r] * K[0][0], kq[0] * y[0], "posterior mean", tol=1e-4)
        else:
            D = K[0][0] * K[1][1] - K[0][1] * K[1][0]
            W.eq(p[r] * D, kq[0] * (K[1][1] * y[0] - K[0][1] * y[1]) + kq[1] * (K[0][0] * y[1] - K[1][0] * y[0]),
                 "posterior mean", tol=1e-4)


def gpr_lengths(W):
    """one length per input dimension"""
    X, y = W.mat("x", 2, 2, -3, 3), W.vec("y", 2, -3, 3)
    W.assume((X[0, 0] - X[1, 0]) * (X[0, 0] - X[1, 0]) > W.q(1, 10))
    l = W.vec("l", 2, 0, 3, strict_lo=True)
    fa = cls(W, "GPR")(1, l)
    fa.train(X, y)
    W.eq(fa.predict(X), y, "a Gaussian process interpolates its training data", tol=1e-4)
    q = W.mat("q", 1, 2, -3, 3)
    g = gauss(W, X[0], X[1], l)
    k0, k1 = gauss(W, q[0], X[0], l), gauss(W, q[0], X[1], l)
    W.eq(fa.predict(q)[0] * (1 - g * g), k0 * (y[0] - g * y[1]) + k1 * (y[1] - g * y[0]), "posterior mean", tol=1e-4)


def defaults(W):
    X = samples(W, 1, 3)
    y = W.vec("y", 3, -3, 3)
    for k, h in (("RBFN", W.q(7, 10)), ("LWR", W.q(1, 2))):
        a, b = cls(W, k)(2).train(X, y), cls(W, k)(2, h, 0).train(X, y)
        W.eq(a["widths"], b["widths"], f"{k}: default intersection height")
    a, b = cls(W, "WLS")().train(X, y), cls(W, "WLS")(True, 0).train(X, y)
    W.eq(a["slope"], b["slope"], "WLS: default is an offset and no regularization", tol=1e-4)
    W.eq(a["offset"], b["offset"], "WLS: default is an offset and no regularization", tol=1e-4)
