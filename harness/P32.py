"""The C++ function approximators and basis functions."""
from harness import fa as FA

CPP = True
BOUNDS = ("1 to 3 basis functions, 1 and 2 input dimensions, 1 to 3 inputs, arbitrary real centers, widths > 0, slopes, offsets, weights, inputs; "
          "models exported from the Python library, constructed directly, and written and read again by the C++ library")
OUTSIDE = "inputs so far from all centers that every activation underflows to zero; rounding; the warnings printed"
ASSUMPTIONS = ["the C++ sources are compiled by g++ 13 with a symbolic number type in place of double; Eigen 3.4 runs unchanged on that type"]


def make(W, k, m):
    if k == "LWR":
        return W.cpp("lwr", m["centers"], m["widths"], m["slopes"], m["offsets"])
    return W.cpp("rbfn", m["centers"], m["widths"], m["weights"])


def predictions(W, h, X, want, n):
    for again in range(2):
        o, i = W.cpp("predict", h, X)
        W.eq(o, want.reshape((n, 1)), "predictions")
        W.eq(i, X, "inputs unchanged")
        for j in reversed(range(n)):
            o, i = W.cpp("predict_rt", h, X[j:j + 1])
            W.eq(o, want[j:j + 1].reshape((1,)), "real-time prediction")
            W.eq(i, X[j], "input unchanged")


def direct(W):
    k, d, nb, n = (W.params[x] for x in ("k", "d", "nb", "n"))
    m = FA.model(W, k, d, nb)
    h = make(W, k, m)
    X = W.mat("in", n, d, -3, 3)
    predictions(W, h, X, W.arr([FA.predict_ref(W, k, m, X[i]) for i in range(n)]), n)


def exported(W):
    """Python model -> json -> C++ -> json -> C++"""
    k, d, nb, n = (W.params[x] for x in ("k", "d", "nb", "n"))
    fa, m = FA.trained(W, k, d, nb)
    jc = W.mod("dmpbbo.json_for_cpp")
    f = W.tmpdir() + "/fa.json"
    jc.savejson_for_cpp(f, fa)
    with open(f) as fh:
        h = W.cpp("fa_json", fh.read())
    X = W.mat("in", n, d, -3, 3)
    want = fa.predict(X).reshape((n,))
    predictions(W, h, X, want, n)
    h2 = W.cpp("fa_json", W.cpp("fa_to_json", h))
    predictions(W, h2, X, want, n)
    W.cpp("delete_fa", h)
    predictions(W, h2, X, want, n)
    W.cpp("delete_fa", h2)


def two(W):
    """one approximator does not influence another"""
    k, d = W.params["k"], W.params["d"]
    ms = [FA.model(W, k, d, 2, "a"), FA.model(W, k, d, 1, "b")]
    hs = [make(W, k, m) for m in ms]
    X = W.mat("in", 1, d, -3, 3)
    for j in (0, 1, 0):
        predictions(W, hs[j], X, W.arr([FA.predict_ref(W, k, ms[j], X[0])]), 1)


def asym(W):
    """asymmetric kernels: left of its center, a kernel has the width of the kernel before"""
    nb, n = W.params["nb"], 2
    C, S = W.mat("c", nb, 1, -3, 3), W.mat("w", nb, 1, 0, 3, strict_lo=True)
    X = W.mat("in", n, 1, -3, 3)
    norm = W.choose(2)
    a = W.cpp("gauss", C, S, X, str(norm), "1")
    for i in range(n):
        g = []
        for b in range(nb):
            w = S[b - 1] if b > 0 and bool(X[i, 0] < C[b, 0]) else S[b]
            g.append(FA.gauss(W, X[i], C[b], w))
        tot = sum(g) if norm else 1
        if norm and nb == 1:
            g = [1]
            tot = 1
        W.eq(a[i], W.arr([x / tot for x in g]), "asymmetric activations")
    if W.params.get("lwr"):
        L, O = W.mat("sl", nb, 1, -3, 3), W.mat("of", nb, 1, -3, 3)
        h = W.cpp("lwr", C, S, L, O, "1")
        act = W.cpp("gauss", C, S, X, "1", "1")
        want = W.arr([sum(act[i, b] * (X[i, 0] * L[b, 0] + O[b, 0]) for b in range(nb)) for i in range(n)])
        predictions(W, h, X, want, n)
        predictions(W, W.cpp("fa_json", W.cpp("fa_to_json", h)), X, want, n)


def activations(W):
    nb, d, n = W.params["nb"], W.params["d"], 2
    C, S = W.mat("c", nb, d, -3, 3), W.mat("w", nb, d, 0, 3, strict_lo=True)
    X = W.mat("in", n, d, -3, 3)
    norm = bool(W.choose(2))
    a = W.cpp("gauss", C, S, X, str(int(norm)), "0")
    G = W.cls("functionapproximators.basis_functions", "Gaussian")
    W.eq(a, G.activations(X, centers=C, widths=S, normalized=norm), "activations")
    if norm:
        for i in range(n):
            W.eq(sum(a[i, b] for b in range(nb)), 1, "normalized activations add up to 1")


def full(W):
    """Gaussians with full covariance matrices and priors"""
    nb, d = W.params["nb"], W.params["d"]
    C, P, X = W.mat("c", nb, d, -3, 3), W.vec("p", nb, 0, 1, strict_lo=True), W.mat("in", 1, d, -3, 3)
    covs, g = [], []
    for b in range(nb):
        L = W.arr([[W.var(f"l{b}_{i}_{j}", 0.25 if i == j else -1, 2) if j <= i else W.q(0) for j in range(d)] for i in range(d)])
        S = L @ L.T
        covs.append(S)
        z, q = [], 0
        for i in range(d):      # (x-c)^T S^-1 (x-c) by forward substitution
            v = X[0, i] - C[b, i]
            for j in range(i):
                v = v - L[i, j] * z[j]
            v = v / L[i, i]
            z.append(v)
            q = q + v * v
        g.append(P[b] * W.np.exp(-q / 2))
    norm = W.choose(2)
    a = W.cpp("gauss_full", C, W.np.concatenate(covs, axis=0), P, X, str(norm))
    tot = sum(g) if norm else 1
    if norm and nb == 1:
        g, tot = [1], 1
    W.eq(a[0], W.arr([x / tot for x in g]), "activations with full covariance matrices")


def cosine(W):
    nb, d = W.params["nb"], W.params["d"]
    A, ph, X = W.mat("a", nb, d, -2, 2), W.vec("ph", nb, -3, 3), W.mat("in", 2, d, -3, 3)
    a = W.cpp("cosine", A, ph, X)
    G = W.cls("functionapproximators.basis_functions", "Cosine") if False else None
    for i in range(2):
        for b in range(nb):
            W.eq(a[i, b], W.np.cos(sum(A[b, j] * X[i, j] for j in range(d)) + ph[b]), "cosine activations")


def cases(tier):
    out = []
    big = tier != "quick"
    for k in ("LWR", "RBFN"):
        for nb, d, n in ((1, 1, 2), (2, 1, 2), (3, 1, 1), (2, 2, 1), (1, 2, 3)) + (((4, 1, 2), (4, 2, 1), (3, 3, 1)) if big else ()):
            p = dict(k=k, d=d, nb=nb, n=n)
            out.append(dict(name=f"direct-{k}-{nb}-{d}-{n}", fn="direct", params=p))
            if nb * d < 4 or big:
                out.append(dict(name=f"exported-{k}-{nb}-{d}-{n}", fn="exported", params=p))
        out.append(dict(name=f"two-{k}", fn="two", params=dict(k=k, d=1)))
    for nb in (1, 2, 3):
        for d in (1, 2):
            out.append(dict(name=f"activations-{nb}-{d}", fn="activations", params=dict(nb=nb, d=d)))
            if nb < 3:
                out.append(dict(name=f"full-{nb}-{d}", fn="full", params=dict(nb=nb, d=d)))
        out.append(dict(name=f"asym-{nb}", fn="asym", params=dict(nb=nb, lwr=nb < 3)))
        out.append(dict(name=f"cosine-{nb}", fn="cosine", params=dict(nb=nb, d=1 + nb % 2)))
    return out
