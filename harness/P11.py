"""P11: the parameter vector of a DMP is that of its function approximators, then the goal."""
from harness.dm import build, setup, state, FA
from harness import fa as hfa

BOUNDS = ("1-3 dimensions, function approximators that are stand-ins with 1-3 parameters each or real WLS/RBFN/LWR models, trained or "
          "not, goal selected or not, arbitrary parameter values, up to two changes of the selection")


def cases(tier):
    out = []
    for d in (1, 2, 3):
        for sel in (("goal",), ("weights",), ("weights", "goal"), ("goal", "weights"), ("a", "goal", "b"), ()):
            for tr in ("all", "some"):
                if tr == "some" and d == 1:
                    continue
                out.append(dict(name=f"stub_d{d}_{'-'.join(sel)}_{tr}", fn="stub", params=dict(d=d, sel=list(sel), tr=tr)))
    for k in ("WLS", "RBFN", "LWR"):
        for g in (0, 1):
            for names in ([hfa.NAMES[k][-1]], list(hfa.NAMES[k])):
                out.append(dict(name=f"real_{k}_g{g}_{'-'.join(names)}", fn="real", params=dict(k=k, g=g, names=names)))
    for f in ("reselect", "none", "string", "guards"):
        out.append(dict(name=f, fn=f, params={}))
    return out


def stubs(W, d, tr="all"):
    F = []
    for i in range(d):
        f = FA(W, f"F{i}", tr == "all" or i != 1, i + 1 if i < 2 else 2)
        f.values = W.vec(f"v{i}", f.n, -3, 3)
        F.append(f)
    return F


def stub(W):
    d, sel, tr = (W.params[k] for k in ("d", "sel", "tr"))
    P = setup(W, d, "IJSPEERT_2002_MOVEMENT")
    F = stubs(W, d, tr)
    dmp = build(W, P, F)
    dmp.set_selected_param_names(sel)
    others = [s for s in sel if s != "goal"]
    for f in F:
        W.true(f.names == others, "all other names are passed on to the function approximators")
    used = [f for f in F if f.on and others]
    goal = "goal" in sel
    old = {f.name: W.np.array(f.values) for f in F}
    n = sum(f.n for f in used) + (d if goal else 0)
    W.true(dmp.get_param_vector_size() == n, "size")
    v = dmp.get_param_vector()
    W.true(v.shape == (n,), "one vector")
    parts = [old[f.name] for f in used] + ([P["g"]] if goal else [])
    if parts:
        W.eq(v, W.np.concatenate(parts), "the approximators in order, then the goal")
    new = W.vec("new", n, -3, 3)
    keep = W.np.array(new)
    dmp.set_param_vector(new)
    W.eq(new, keep, "the vector passed in is not modified")
    W.eq(dmp.get_param_vector(), keep, "get(set(v)) = v")
    off = 0
    for f in F:
        if f in used:
            W.eq(f.values, keep[off:off + f.n], "every approximator gets its part")
            off += f.n
        else:
            W.eq(f.values, old[f.name], "an untrained approximator is left alone")
    W.eq(dmp.y_attr, keep[off:] if goal else P["g"], "the goal is set exactly when it is selected")
    W.eq(dmp.y_init, P["y0"], "the initial state stays")
    if goal:
        a = build(W, P, F, g=keep[off:])
        x = state(W, P, a)
        W.eq(dmp.differential_equation(x), a.differential_equation(x), "a DMP constructed with that goal")
    new += 1
    W.eq(dmp.get_param_vector(), keep, "changing the vector afterwards does not change the DMP")
    g = dmp.get_param_vector()
    g += 1
    W.eq(dmp.get_param_vector(), keep, "changing a vector that was read does not change the DMP")
    dmp.set_param_vector([keep[i] for i in range(n)])
    W.eq(dmp.get_param_vector(), keep, "lists are accepted")
    for bad in (n - 1, n + 1):
        if bad >= 0:
            W.raises(lambda: dmp.set_param_vector(W.np.zeros(bad)), "a vector of the wrong size is refused", ValueError)
    W.eq(dmp.get_param_vector(), keep, "a refused vector changes nothing")


def real(W):
    k, g, names = (W.params[x] for x in ("k", "g", "names"))
    P = setup(W, 2, "COUNTDOWN_2013")
    ms = [hfa.trained(W, k, 1, 1 if k == "WLS" else 2, f"m{i}") for i in range(2)]
    dmp = build(W, P, [f for f, _ in ms])
    dmp.set_selected_param_names(names + ["goal"] if g else names)
    v = dmp.get_param_vector()
    ref = [hfa.flat(W, m, names) for _, m in ms] + ([P["g"]] if g else [])
    W.eq(v, W.np.concatenate(ref), "the vector lists the parameters of every dimension, then the goal")
    n = v.size
    w = W.vec("new", n, W.q(1, 2), 3)
    dmp.set_param_vector(w)
    W.eq(dmp.get_param_vector(), w, "get(set(v)) = v")
    if g:
        W.eq(dmp.y_attr, w[n - 2:], "goal")
    x = state(W, P, dmp)
    off = 0
    xd, x0 = dmp.differential_equation(x), build(W, P, None, g=dmp.y_attr).differential_equation(x)
    for i, (f, m) in enumerate(ms):
        m2 = dict(m)
        for s in names:
            c = int(W.np.atleast_1d(m[s]).size)
            m2[s] = w[off] if s == "offset" else w[off:off + c].reshape(m[s].shape)
            off += c
        W.eq((xd - x0)[dmp.SPRING_Z][i] * P["tau"], x[dmp.GATING][0] * hfa.predict_ref(W, k, m2, x[dmp.PHASE]),
             "the forcing term uses the new parameters", tol=1e-5)


def reselect(W):
    P = setup(W, 2, "IJSPEERT_2002_MOVEMENT")
    opts = (["goal"], ["w"], ["w", "goal"], [])
    dmp = build(W, P, stubs(W, 2))
    dmp.set_selected_param_names(opts[W.choose(4)])
    dmp.get_param_vector()
    o = opts[W.choose(4)]
    dmp.set_selected_param_names(o)
    b = build(W, P, stubs(W, 2))
    b.set_selected_param_names(o)
    W.true(dmp.get_param_vector_size() == b.get_param_vector_size(), "only the last selection counts")
    W.eq(dmp.get_param_vector(), b.get_param_vector(), "only the last selection counts")


def none(W):
    P = setup(W, 2, "IJSPEERT_2002_MOVEMENT")
    dmp = build(W, P, None)
    W.true(dmp.get_param_vector_size() == 0 and dmp.get_param_vector().size == 0, "nothing to select")
    dmp.set_selected_param_names(["goal"])
    W.eq(dmp.get_param_vector(), P["g"], "a DMP without function approximators still has a goal")
    g = W.vec("g2", 2, -3, 3)
    dmp.set_param_vector(g)
    W.eq(dmp.y_attr, g, "goal set")


def string(W):
    P = setup(W, 2, "IJSPEERT_2002_MOVEMENT")
    a, b = build(W, P, stubs(W, 2)), build(W, P, stubs(W, 2))
    for s in ("goal", "weights"):
        a.set_selected_param_names(s)
        b.set_selected_param_names([s])
        W.eq(a.get_param_vector(), b.get_param_vector(), "a single name may be given as a string")


def guards(W):
    P = setup(W, 2, "IJSPEERT_2002_MOVEMENT")
    dmp = build(W, P, stubs(W, 2))
    W.true(dmp.get_param_vector_size() == 0, "nothing selected at first")
    dmp.set_param_vector(W.np.zeros(0))
    W.eq(dmp.y_attr, P["g"], "goal untouched")
