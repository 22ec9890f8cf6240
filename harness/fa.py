"""shared by the function-approximator harnesses: symbolic models of every kind"""

KINDS = ("WLS", "WLS_noff", "RBFN", "LWR", "GPR")
NAMES = {"WLS": ("slope", "offset"), "WLS_noff": ("slope",), "RBFN": ("centers", "widths", "weights"),
         "LWR": ("centers", "widths", "slopes", "offsets"), "GPR": ("gram_inv_targets", "inputs", "lengths")}


def cls(W, k):
    return W.cls("functionapproximators.FunctionApproximator" + k.split("_")[0])


def fresh(W, k, nb=2, d=1, maxcov=None):
    """an untrained approximator"""
    C = cls(W, k)
    if k == "WLS":
        return C(True, 0)
    if k == "WLS_noff":
        return C(False, 0)
    if k == "GPR":
        return C() if maxcov is None else C(maxcov)
    return C(nb if d == 1 else [nb] + [1] * (d - 1))


def model(W, k, d, nb, p=""):
    """arbitrary model parameters of the shapes training produces"""
    if k == "WLS":
        return {"slope": W.vec(p + "slope", d, -3, 3), "offset": W.var(p + "offset", -3, 3)}
    if k == "WLS_noff":
        return {"slope": W.vec(p + "slope", d, -3, 3)}
    m = {}
    if k == "GPR":
        return {"inputs": W.mat(p + "inputs", nb, d, -3, 3), "lengths": W.mat(p + "lengths", nb, d, 0, 3, strict_lo=True),
                "max_covariance": W.pos(p + "maxcov", 3), "gram_inv_targets": W.vec(p + "git", nb, -3, 3)}
    m["centers"] = W.mat(p + "centers", nb, d, -3, 3)
    m["widths"] = W.mat(p + "widths", nb, d, 0, 3, strict_lo=True)
    if k == "RBFN":
        m["weights"] = W.mat(p + "weights", nb, 1, -3, 3)
    else:
        m["offsets"] = W.mat(p + "offsets", nb, 1, -3, 3)
        m["slopes"] = W.mat(p + "slopes", nb, d, -3, 3)
    return m


def trained(W, k, d, nb, p=""):
    """a trained approximator with arbitrary model parameters (trained on fixed data, then given parameters)"""
    m = model(W, k, d, nb, p)
    fa = fresh(W, k, nb, d, m.get("max_covariance"))
    n = nb if k == "GPR" else nb + 2
    X = W.arr([[W.q((3 * i * i + j * i + 2 * j) % 7, 3) for j in range(d)] for i in range(n)])
    fa.train(X, W.arr([W.q(i + 1, 4) for i in range(n)]))
    names = list(NAMES[k])
    fa.set_selected_param_names(names)
    fa.set_param_vector(flat(W, m, names))
    fa.set_selected_param_names(None)
    return fa, m


def flat(W, m, names):
    return W.np.concatenate([W.np.atleast_1d(m[n]).reshape(-1) for n in names])


def gauss(W, x, c, w):
    """the Gaussian kernel as defined in the tutorial"""
    e = 0
    for i in range(len(c)):
        e = e + (x[i] - c[i]) * (x[i] - c[i]) / (w[i] * w[i])
    return W.np.exp(-e / 2)


def predict_ref(W, k, m, x):
    """prediction for one input vector, from the definition"""
    if k.startswith("WLS"):
        return sum(x[i] * m["slope"][i] for i in range(len(x))) + m.get("offset", 0)
    if k == "GPR":
        return sum(m["max_covariance"] * gauss(W, x, m["inputs"][b], m["lengths"][b]) * m["gram_inv_targets"][b]
                   for b in range(len(m["inputs"])))
    n = len(m["centers"])
    g = [gauss(W, x, m["centers"][b], m["widths"][b]) for b in range(n)]
    if k == "RBFN":
        return sum(g[b] * m["weights"][b][0] for b in range(n))
    tot = sum(g) if n > 1 else 1
    if n == 1:
        g = [1]
    return sum(g[b] / tot * (m["offsets"][b][0] + sum(x[i] * m["slopes"][b][i] for i in range(len(x)))) for b in range(n))


def samples_for(W, k, d, p):
    """arbitrary training data on which every approximator kind can be trained"""
    t = W.increasing(p + "x", 2, gap_hi=3)
    if d == 1:
        X = W.arr([t[0], t[1], (t[0] + t[1]) / 2] if k != "GPR" else [t[0], t[1]]).reshape(-1, 1)
    else:
        u = W.increasing(p + "u", 2, gap_hi=3)
        X = W.arr([[t[0], u[0]], [t[1], u[1]], [t[0], u[1]]][:2 if k == "GPR" else 3])
    n = X.shape[0]
    for i in range(1, n):
        W.assume(X[i, 0] - X[0, 0] >= W.q(1, 3)) if d == 1 or i == 1 else None
    return X, W.vec(p + "y", n, -3, 3)
