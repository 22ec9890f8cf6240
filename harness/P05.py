"""P05: time constant scales time; the shape parameters place the movement where they say they do."""
from harness.dsys import params, build, dim_x, state

BOUNDS = ("state dimension 1-2, scalar and per-dimension parameters, two arbitrary time constants and an arbitrary time; "
          "Richards v in {1, 2} and an arbitrary real in [1/2,3]; gating ratio an arbitrary real in (0,1), gating dimension 1-3")
OUTSIDE = "sigmoid systems are not scaled in time by their time constant alone (their rate is absolute); see DESIGN.md"
SCALED = ("exponential", "spring", "springkm", "richards", "richards_left", "time", "time_down")


def cases(tier):
    out = []
    for k in SCALED:
        for d in ((1,) if k.startswith("time") else (1, 2)):
            for arr in ((0,) if k.startswith("time") else (0, 1)):
                out.append(dict(name=f"scale_{k}_d{d}_a{arr}", fn="scale", params=dict(k=k, d=d, arr=arr)))
    for d in (1, 2):
        for arr in (0, 1):
            out.append(dict(name=f"sigmoid_inflection_d{d}_a{arr}", fn="sigmoid_inflection", params=dict(d=d, arr=arr)))
            for v in ((1, 1), (2, 1), None):
                out.append(dict(name=f"richards_inflection_d{d}_a{arr}_v{v}", fn="richards_inflection",
                                params=dict(d=d, arr=arr, v=v)))
    for d in (1, 2, 3):
        out.append(dict(name=f"gating_d{d}", fn="gating", params=dict(d=d)))
    out.append(dict(name="gating_default", fn="gating_default", params={}))
    return out


def scale(W):
    k, d, arr = W.params["k"], W.params["d"], W.params["arr"]
    P = params(W, k, d, arr)
    if k == "springkm":  # critically damped, so that there is an analytical solution
        m, w = P["m"], W.vec("w", d, 0, 4, strict_lo=True) if arr else W.var("w", 0, 4, strict_lo=True)
        P["c"], P["k"] = 2 * w * m, w * w * m
    a = build(W, k, P)
    tau2 = W.pos("tau2", 5)
    b = build(W, k, dict(P, tau=tau2))
    t = W.var("t", 0, 10)
    if k.startswith("time"):
        W.assume(t != 1)
    xa, xda = a.analytical_solution(W.arr([t * P["tau"]]))
    xb, xdb = b.analytical_solution(W.arr([t * tau2]))
    W.eq(xa, xb, "the same states at the same fraction of the time constant")
    W.eq(xda * P["tau"], xdb * tau2, "rates are inversely proportional to the time constant")
    x = state(W, k, d, P)
    if not k.startswith("time"):
        W.eq(a.differential_equation(x) * P["tau"], b.differential_equation(x) * tau2,
             "the differential equation is inversely proportional to the time constant")
    a.tau = tau2
    xc, xdc = a.analytical_solution(W.arr([t * tau2]))
    W.eq(xc, xb, "setting the time constant is the same as constructing with it")
    W.eq(xdc, xdb, "setting the time constant is the same as constructing with it")


def par(W, name, d, arr, **k):
    return W.vec(name, d, **k) if arr else W.var(name, **k)


def inflects(W, s, t, at, msg):
    """the rate is stationary at t = at[dimension]"""
    acc = W.ddt(lambda u: s.analytical_solution(W.arr([u]))[1][0], t)
    for i in range(s.dim_x):
        W.eq(subst(W, acc[i], t, at[i]) if W.symbolic else W.ddt(lambda u: s.analytical_solution(W.arr([u]))[1][0], at[i])[i],
             0, msg, tol=W.ddt_tol, scale=1)


def subst(W, e, t, v):
    return W.eng.subst(e, t, v)


def sigmoid_inflection(W):
    d, arr = W.params["d"], W.params["arr"]
    tau, t = W.pos("tau", 3), W.var("t", 0, 5, free=True)
    x0 = W.vec("x0", d, 0, 5, strict_lo=True)
    r, f = par(W, "r", d, arr, lo=-5, hi=5), par(W, "infl", d, arr, lo=0, hi=1)
    s = W.cls("dynamicalsystems.SigmoidSystem")(tau, x0, r, f)
    at = (f if arr else W.arr([f] * d)) * tau
    inflects(W, s, t, at, "the rate of change is extremal at inflection_ratio * tau")
    for i in range(d):
        ri = r[i] if arr else r
        x = s.analytical_solution(W.arr([at[i]]))[0][0][i]
        xd = s.analytical_solution(W.arr([at[i]]))[1][0][i]
        # N' = r N (1 - N/K) and N = K/2 there
        W.eq(xd, ri * x / 2, "half of the range is covered at the inflection")


def richards_inflection(W):
    d, arr, v = W.params["d"], W.params["arr"], W.params["v"]
    tau, t = W.pos("tau", 3), W.var("t", 0, 5, free=True)
    x0 = W.vec("x0", d, -5, 5)
    xa = x0 + W.vec("range", d, 0, 5, strict_lo=True)
    f = par(W, "ratio", d, arr, lo=0, hi=1)
    al = par(W, "alpha", d, arr, lo=0, hi=6, strict_lo=True)
    vv = W.q(*v) if v else W.var("v", W.q(1, 2), 3)
    s = W.cls("dynamicalsystems.RichardsSystem")(tau, x0, xa, f, al, vv)
    at = (f if arr else W.arr([f] * d)) * tau
    inflects(W, s, t, at, "the rate of change is extremal at the inflection time")


def gating(W):
    n = W.params["d"]
    tau, ratio = W.pos("tau", 5), W.var("ratio", 0, 1, strict_lo=True, strict_hi=True)
    s = W.cls("dynamicalsystems.SigmoidSystem").for_gating(tau, ratio, n)
    W.true(s.dim_x == n, "as many gating signals as asked for")
    W.eq(s.analytical_solution(W.arr([W.const(0)]))[0][0], W.np.ones(n), "the gate is open at the start")
    W.eq(s.analytical_solution(W.arr([tau]))[0][0], ratio * W.np.ones(n), "the gate has decayed to the given ratio at tau")


def gating_default(W):
    tau = W.pos("tau", 5)
    s = W.cls("dynamicalsystems.SigmoidSystem").for_gating(tau)
    W.eq(s.analytical_solution(W.arr([tau]))[0][0], W.q(1, 10) * W.np.ones(1), "the gate has decayed to a tenth at tau")
