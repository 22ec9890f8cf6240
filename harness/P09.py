"""P09: a function approximator is a function of one input at a time, and training fully replaces what it knew."""
from harness.fa import KINDS, cls, fresh, trained, samples_for

BOUNDS = ("every approximator kind, input dimension 1-2, 1-2 basis functions (GPR: 2 samples), batches of 1-3 arbitrary inputs, "
          "arbitrary model parameters; retraining and reuse of the caller's arrays with arbitrary data")


def cases(tier):
    out = []
    for k in KINDS:
        for d in (1, 2):
            nbs = (1,) if k.startswith("WLS") else (1, 2) if tier == "quick" else (1, 2, 3)
            for nb in nbs:
                out.append(dict(name=f"pointwise_{k}_d{d}_b{nb}", fn="pointwise", params=dict(k=k, d=d, nb=nb)))
            out.append(dict(name=f"retrain_{k}_d{d}", fn="retrain", params=dict(k=k, d=d)))
            out.append(dict(name=f"guards_{k}_d{d}", fn="guards", params=dict(k=k, d=d)))
        out.append(dict(name=f"flat_{k}", fn="flat_inputs", params=dict(k=k)))
        out.append(dict(name=f"caller_arrays_{k}", fn="caller_arrays", params=dict(k=k)))
    return out


def pointwise(W):
    k, d, nb = W.params["k"], W.params["d"], W.params["nb"]
    fa, m = trained(W, k, d, nb)
    x = W.mat("x", 3, d, -3, 3)
    keep = W.np.array(x)
    y = fa.predict(x)
    W.true(y.reshape(-1).shape == (3,), "one prediction per input")
    for i in range(3):
        W.eq(fa.predict(x[i:i + 1]), y[i:i + 1], "a prediction does not depend on the rest of the batch")
    W.eq(fa.predict(x[[2, 0, 1]]), y[[2, 0, 1]], "predictions follow the order of the inputs")
    W.eq(fa.predict(x), y, "predicting again gives the same result")
    W.eq(x, keep, "inputs are not modified")
    fa.set_selected_param_names(list(NAMES(k)))
    v = fa.get_param_vector()
    fa.predict(x)
    W.eq(fa.get_param_vector(), v, "predicting does not change the model")


def NAMES(k):
    from harness.fa import NAMES
    return NAMES[k]


def flat_inputs(W):
    k = W.params["k"]
    fa, m = trained(W, k, 1, 2 if not k.startswith("WLS") else 1)
    x = W.vec("x", 2, -3, 3)
    W.eq(fa.predict(x).reshape(-1), fa.predict(x.reshape(2, 1)).reshape(-1), "flat inputs mean one column")
    X, y = samples_for(W, k, 1, "t")
    q = W.vec("q", 2, -3, 3)
    a, b = fresh(W, k), fresh(W, k)
    a.train(X, y)
    b.train(X.reshape(-1), y)
    W.true(a.dim_input() == 1 and b.dim_input() == 1, "one input dimension")
    W.eq(a.predict(q), b.predict(q), "training on flat inputs means one column", tol=1e-4)


def retrain(W):
    k, d = W.params["k"], W.params["d"]
    d2 = 3 - d
    a, _ = trained(W, k, d, 2 if not k.startswith("WLS") else 1)  # has a history
    a.predict(W.mat("p", 1, d, -3, 3))
    X, y = samples_for(W, k, d, "t")
    q = W.mat("q", 2, d, -3, 3)
    b = fresh(W, k, 2, d)
    if k == "GPR":
        a = fresh(W, k)
        a.train(*samples_for(W, k, d, "old"))
    a.train(X, y)
    b.train(X, y)
    W.eq(a.predict(q), b.predict(q), "training replaces what was learned before", tol=1e-4)
    b.train(X, y, save_training_data=True)
    W.eq(a.predict(q), b.predict(q), "training twice is training once", tol=1e-4)
    W.true(b.is_trained() and b.dim_input() == d, "knows its input dimension")


def guards(W):
    k, d = W.params["k"], W.params["d"]
    fa = fresh(W, k, 2, d)
    W.true(not fa.is_trained(), "not trained at first")
    x = W.mat("x", 2, d, -3, 3)
    W.raises(lambda: fa.predict(x), "an untrained approximator refuses to predict", ValueError)
    fa, _ = trained(W, k, d, 2 if not k.startswith("WLS") else 1)
    W.true(fa.is_trained() and fa.dim_input() == d, "trained")
    for bad in (d - 1, d + 1, d + 2):
        if bad:
            z = W.mat(f"z{bad}", 2, bad, -3, 3)
            W.raises(lambda: fa.predict(z), f"inputs of dimension {bad} are refused", ValueError)
    W.eq(fa.predict(x), fa.predict(x), "still works")


def caller_arrays(W):
    """the model keeps no reference to the arrays of the caller"""
    k = W.params["k"]
    for flat in (0, 1):
        X, y = samples_for(W, k, 1, f"t{flat}")
        if flat:
            X = X.reshape(-1)
        fa = fresh(W, k)
        fa.train(X, y)
        q = W.vec(f"q{flat}", 1, -3, 3)
        before = fa.predict(q)
        X += W.var("s", 1, 2)
        y *= W.var("r", 2, 3)
        W.eq(fa.predict(q), before, "reusing the training arrays does not change the predictions", tol=1e-4)
        p = fa.predict(q)
        p += 1
        W.eq(fa.predict(q), before, "changing a returned prediction does not change the next one", tol=1e-4)
