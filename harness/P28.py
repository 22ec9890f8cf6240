"""P28: a learning session returns what was stored last under a name, update and sample, in memory and from its directory."""
import itertools

BOUNDS = ("every sequence of 2 stores over 12 keys and 3 stores over 4 keys (name, update and sample numbers of different sizes, ints or numpy "
          "integers, 'eval', none), arbitrary values of several types (vectors, matrices, lists, distributions), in memory, in a directory, read back by a "
          "new session, saved later")
OUTSIDE = ("names that contain an underscore-separated sample label themselves; dataframes; files of arrays with a dimension of size one; "
           "the type in which numbers come back from text files (lists become arrays)")


def cases(tier):
    out = []
    for st in ("memory", "dir", "reload", "save_all"):
        for a in range(len(KEYS)):
            out.append(dict(name=f"two_{st}_{a}", fn="two", params=dict(a=a, st=st)))
        for t in ("vector", "matrix", "list", "distribution", "nested", "int"):
            out.append(dict(name=f"value_{t}_{st}", fn="value", params=dict(t=t, st=st)))
        out.append(dict(name=f"history_{st}", fn="history", params=dict(st=st)))
        out.append(dict(name=f"missing_{st}", fn="missing", params=dict(st=st)))
        out.append(dict(name=f"numpy_ints_{st}", fn="numpy_ints", params=dict(st=st)))
        out.append(dict(name=f"isolation_{st}", fn="isolation", params=dict(st=st)))
        out.append(dict(name=f"costs_{st}", fn="sample_costs", params=dict(st=st)))
        out.append(dict(name=f"curve_{st}", fn="curve", params=dict(st=st)))
    return out


KEYS = [("x", None, None), ("y", None, None), ("x", 0, None), ("x", 1, None), ("y", 1, None), ("x", 10, None), ("x", 123456, None),
        ("x", 0, 0), ("x", 0, 1), ("x", 1, 0), ("x", 0, 1000), ("x", 0, "eval")]


def session(W, st, n=2, **kw):
    S = W.cls("bbo.LearningSession")
    return S(n, W.tmpdir() if st in ("dir", "reload") else None, **kw)


def view(W, s, st):
    """the session that is asked"""
    S = W.cls("bbo.LearningSession")
    if st == "reload":
        return S.from_dir(s._root_dir)
    if st == "save_all":
        d = W.tmpdir()
        s.save_all(d)
        return S.from_dir(d)
    return s


def two(W):
    st = W.params["st"]
    a = KEYS[W.params["a"]]
    b = KEYS[W.choose(len(KEYS))]
    s = session(W, st)
    u, v = W.vec("u", 2, -3, 3), W.vec("v", 3, -3, 3)
    W.true(not s.exists(*a), "nothing exists at first")
    s.tell(u, *a)
    W.true(s.exists(*a), "exists once stored")
    W.true(s.exists(*b) == (a == b), "nothing else exists")
    W.eq(s.ask(*a), u, "what was stored")
    s.tell(v, *b)
    s = view(W, s, st)
    W.eq(s.ask(*b), v, "what was stored last")
    W.eq(s.ask(*a), v if a == b else u, "storing under another key does not matter")
    W.true(s.exists(*a) and s.exists(*b), "both exist")
    W.true(s.ask("n_samples_per_update") == 2, "number of samples per update")


def history(W):
    st = W.params["st"]
    keys = [KEYS[i] for i in (0, 2, 7, 11)]
    s = session(W, st)
    model = {}
    for i in range(3):
        k = keys[W.choose(4)]
        v = W.vec(f"v{i}_", 2, -3, 3)
        s.tell(v, *k)
        model[k] = v
    s = view(W, s, st)
    for k in keys:
        W.true(s.exists(*k) == (k in model), "exists exactly if stored")
        if k in model:
            W.eq(s.ask(*k), model[k], "the value stored last")
            W.eq(s.ask(*k), model[k], "asking again gives the same")


def value(W):
    st, t = W.params["st"], W.params["t"]
    x = W.mat("x", 2, 3, -3, 3)
    D = W.cls("bbo.DistributionGaussian")
    v = {"vector": lambda: W.np.array(x[0]), "matrix": lambda: W.np.array(x), "list": lambda: [x[0, 0], x[0, 1]],
         "nested": lambda: [W.np.array(x[0]), W.np.array(x[1])], "distribution": lambda: D(x[0], W.np.diag(x[1] * x[1] + 1)),
         "int": lambda: 7}[t]()
    for k in (("v",), ("v", 3), ("v", 3, 4), ("v", 3, "eval")):
        s = session(W, st)
        s.tell(v, *k)
        s = view(W, s, st)
        r = s.ask(*k)
        if t == "distribution":
            W.true(type(r) is D, "an object of the same class")
            W.eq(r.mean, v.mean, "mean")
            W.eq(r.covar, v.covar, "covariance")
        elif t == "int":
            W.true(int(r) == 7, "an integer")
        elif t == "nested":
            W.true(len(r) == 2, "number of entries")
            for i in range(2):
                W.eq(W.np.array(r[i]), x[i], "value")
        else:
            W.eq(W.np.array(r), W.np.array(v), "value")
    s = session(W, st, a=v, b=W.np.array(x))
    s = view(W, s, st)
    W.true(s.exists("a") and s.exists("b") and not s.exists("c"), "things passed to the constructor exist")
    W.eq(s.ask("b"), x, "and are returned")


def missing(W):
    st = W.params["st"]
    s = session(W, st)
    s.tell(W.vec("v", 2), "x", 1, 2)
    s = view(W, s, st)
    for k in (("x",), ("x", 1), ("x", 2), ("x", 1, 3), ("x", 1, "eval"), ("y", 1, 2)):
        W.true(not s.exists(*k), "does not exist")
        W.raises(lambda: s.ask(*k), "asking for something that does not exist is an error", (KeyError, OSError))


def numpy_ints(W):
    st = W.params["st"]
    import numpy
    for c in (numpy.int64, numpy.int32):
        for i, j in ((0, 0), (3, 7), (12, None)):
            s = session(W, st)
            u, v = W.vec("u", 2, -3, 3), W.vec("v", 2, -3, 3)
            s.tell(u, "x", c(i), None if j is None else c(j))
            s.tell(v, "x", c(i + 1), None if j is None else c(j))
            s = view(W, s, st)
            W.eq(s.ask("x", i, j), u, "numpy integers are the same key as integers")
            W.eq(s.ask("x", i + 1, j), v, "numpy integers are the same key as integers")
            W.eq(s.ask("x", c(i), None if j is None else c(j)), u, "also when asking")
            W.true(not s.exists("x"), "not a key without update")


def isolation(W):
    st = W.params["st"]
    D = W.cls("bbo.DistributionGaussian")
    for obj in (False, True):
        x = W.vec("ox" if obj else "x", 2, -3, 3)
        y = W.np.array(x)
        v = D(W.np.array(x), W.np.eye(2)) if obj else W.np.array(x)
        arr = lambda o: o.mean if obj else o
        s = session(W, st)
        s.tell(v, "v", 1)
        arr(v)[0] = arr(v)[0] + 1
        s = view(W, s, st)
        for i in range(2):
            r = s.ask("v", 1)
            W.eq(arr(r), y, "modifying the object after storing it, or an object that was returned, does not change the session")
            arr(r)[1] = arr(r)[1] + 1
        W.eq(arr(s.ask("v", 1)), y, "modifying an object that was returned does not change the session")


def sample_costs(W):
    st = W.params["st"]
    n, k = 3, 2
    c = W.mat("c", n, k, -3, 3)
    s = session(W, st, n)
    if W.choose(2):
        s.tell(c, "costs", 1)
    else:
        for j in range(n):
            s.tell(c[j], "costs", 1, j)
    s = view(W, s, st)
    W.eq(s.get_sample_costs(1), c, "costs of the samples, stored together or one by one")
    e, i = s.get_eval_costs(1)
    W.eq(e, W.arr([(c[0, q] + c[1, q] + c[2, q]) / 3 for q in range(k)]), "without evaluation: mean of the costs of the samples")
    W.eq(i, W.q(9, 2), "half-way through the samples of the update")


def curve(W):
    """learning curves from what was recorded"""
    st = W.params["st"]
    n, k, u = 2, 2, W.choose(3)
    D = W.cls("bbo.DistributionGaussian")
    ev = W.choose(2)
    s = session(W, st, n)
    C = [W.mat(f"c{i}_", n, k, -3, 3) for i in range(u)]
    E = [W.vec(f"e{i}_", k, 1, 3) for i in range(u)]
    for i in range(u):
        if ev:
            s.add_eval(i, W.vec(f"m{i}_", 2), E[i])
        s.add_update(i, D(W.vec(f"m{i}_", 2), W.np.eye(2)), W.mat(f"s{i}_", n, 2), C[i], W.vec(f"w{i}_", n, 0, 1), D(W.vec(f"m{i}_", 2), W.np.eye(2)))
    s = view(W, s, st)
    W.true(s.get_n_updates() == u, "number of updates")
    L, labels = s.get_learning_curve()
    W.true(len(L) == u and len(labels) == 0, "one entry per update")
    for i in range(u):
        exp = [W.const(i * n), E[i][0], E[i][1]] if ev else [W.const(i * n + 1), (C[i][0, 0] + C[i][1, 0]) / 2, (C[i][0, 1] + C[i][1, 1]) / 2]
        W.eq(L[i], W.arr(exp), "number of samples and costs")
    if u and ev:
        W.eq(s.get_cost_ratio(), E[u - 1][0] / E[0][0], "ratio of the total costs after and before")
