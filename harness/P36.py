"""P36: parameters of the systems inside a DMP can be set by name."""
from harness.dm import TYPES, build, setup, state, fas

BOUNDS = ("every DMP type, every non-empty choice of systems and parameters (spring-damper: damping coefficient, spring constant, mass; "
          "goal: decay constant, Richards: growth rate; damping: decay constant), scalar or one value per dimension, dimension 1-2, one "
          "or two calls, arbitrary values and states")
OUTSIDE = "names of internal attributes (those with an underscore); whether a refused call has changed other parameters before"

SPRING = ("damping_coefficient", "spring_constant", "mass")


def cases(tier):
    out = []
    for t in TYPES:
        for arr in (0, 1):
            out.append(dict(name=f"set_{t}_{'array' if arr else 'scalar'}", fn="by_name", params=dict(d=2 if arr else 1, typ=t, arr=arr)))
        out.append(dict(name=f"twice_{t}", fn="twice", params=dict(d=1, typ=t, arr=0)))
        out.append(dict(name=f"refused_{t}", fn="refused", params=dict(d=1, typ=t)))
    return out


def systems(W, t):
    names = {"spring_system": SPRING}
    if t != "IJSPEERT_2002_MOVEMENT":
        names["goal_system"] = ("alpha",)
    if "DAMPING" in t:
        names["damping_system"] = ("alpha",)
    return names


def values(W, P, name, param):
    lo, hi = dict(damping_coefficient=(1, 20), spring_constant=(1, 50), mass=(W.q(1, 4), 4), alpha=(1, 12))[param]
    p = f"{name}_{param}"
    return W.vec(p, P["d"], lo, hi) if W.params["arr"] else W.var(p, lo, hi)


def setup_(W):
    P = setup(W, W.params["d"], W.params["typ"])
    if W.params["typ"] in ("KULVICIUS_2012_JOINING", "COUNTDOWN_2013"):
        P["kw"]["gating_system"] = None
    return P


def gate(W, P):
    """systems of its own for every DMP"""
    k = dict(P["kw"])
    if "gating_system" in k:
        k["gating_system"] = W.cls("dynamicalsystems.ExponentialSystem")(P["tau"], 1, 0, 4)
    return k


def plain(W, P):
    return build(W, dict(P, kw=gate(W, P)))


def constructed(W, P, v):
    """a DMP constructed with subsystems that have the parameters"""
    k, t, d = gate(W, P), P["typ"], P["d"]
    S = lambda n: W.cls(f"dynamicalsystems.{n}System")
    s = v.get("spring_system", {})
    c = s.get("damping_coefficient", W.const(20))
    k["transformation_system"] = S("SpringDamper")(P["tau"], W.np.array(P["y0"]), W.np.array(P["g"]), c,
                                                   s.get("spring_constant", W.const(100)), s.get("mass", W.const(1)))
    if "goal_system" in v:
        a = v["goal_system"]["alpha"]
        if "SCT23" in t or "2022" in t:
            x0, xa = (P["y0"], P["g"]) if "NO_SCALING" in t else (W.np.zeros(d), W.np.ones(d))
            k["goal_system"] = S("Richards")(P["tau"], W.np.array(x0), W.np.array(xa), 0.3, a, 1.0)
        else:
            k["goal_system"] = S("Exponential")(P["tau"], W.np.array(P["y0"]), W.np.array(P["g"]), a)
    if "DAMPING" in t:
        full = W.np.full((d,), W.const(20))
        a = v.get("damping_system", {}).get("alpha", W.const(4))
        k["damping_system"] = S("Exponential")(P["tau"], full / 10, full, a)
    return build(W, dict(P, kw=k))


def same(W, a, b, P, msg, sol=True):
    x = state(W, P, b, "cmp")
    W.eq(a.differential_equation(x), b.differential_equation(x), msg + " (differential equation)")
    if sol:
        ts = W.arr([W.const(0), W.q(1, 5) * P["tau"]])
        for u, v, n in zip(a.analytical_solution(ts), b.analytical_solution(ts), ("states", "rates", "forcing terms", "outputs")):
            W.eq(u, v, f"{msg} (solution: {n})")
    p, q = a.integrate_start(), b.integrate_start()
    W.eq(p[0], q[0], msg + " (initial state)")
    W.eq(p[1], q[1], msg + " (initial rates)")
    W.eq(a.tau, P["tau"], "tau stays the same")
    W.eq(a.y_init, P["y0"], "initial state stays the same")
    W.eq(a.y_attr, P["g"], "goal stays the same")


def pick(W, names):
    """any non-empty choice of parameters"""
    flat = [(s, p) for s in names for p in names[s]]
    on = W.choose(2 ** len(flat) - 1) + 1
    return [f for i, f in enumerate(flat) if on >> i & 1]


def nested(W, P, chosen):
    v = {}
    for s, p in chosen:
        v.setdefault(s, {})[p] = values(W, P, s, p)
    return v


def by_name(W):
    P = setup_(W)
    a, other = plain(W, P), plain(W, P)
    v = nested(W, P, pick(W, systems(W, P["typ"])))
    given = {s: {p: W.np.array(x) if W.params["arr"] else x for p, x in q.items()} for s, q in v.items()}
    a.set_params_dyn_sys(given)
    W.true(set(given) == set(v) and all(set(given[s]) == set(v[s]) for s in v), "the names passed in are not modified")
    b = constructed(W, P, v)
    same(W, a, b, P, "the same as a DMP constructed with these parameters")
    for s in v:
        for p in v[s]:
            W.eq(given[s][p], v[s][p], "values passed in are not modified")
    x = state(W, P, other, "oth")
    W.eq(other.differential_equation(x), plain(W, P).differential_equation(x), "another DMP is not influenced")


def twice(W):
    """values set later replace those set before; others stay"""
    P = setup_(W)
    a = plain(W, P)
    names = systems(W, P["typ"])
    first = nested(W, P, [("spring_system", p) for p in SPRING])
    a.set_params_dyn_sys(first)
    flat = [(s, p) for s in names for p in names[s]]
    s, p = flat[W.choose(len(flat))]
    new = W.var("new", 2, 9)
    a.set_params_dyn_sys({s: {p: new}})
    v = {n: dict(q) for n, q in first.items()}
    v.setdefault(s, {})[p] = new
    same(W, a, constructed(W, P, v), P, "the last values count", sol=False)


def refused(W):
    P = setup_(W)
    a = plain(W, P)
    names = systems(W, P["typ"])
    c = W.var("c", 1, 20)
    W.raises(lambda: a.set_params_dyn_sys({"no_such_system": {"alpha": c}}), msg="a system that does not exist is refused")
    for s in names:
        W.raises(lambda s=s: a.set_params_dyn_sys({s: {"no_such_parameter": c}}), msg="a parameter that does not exist is refused")
    for s in ("goal_system", "damping_system"):
        if s not in names:
            W.raises(lambda s=s: a.set_params_dyn_sys({s: {"alpha": c}}), msg="a system the DMP does not have is refused")
    same(W, a, plain(W, P), P, "unchanged after refused calls", sol=False)
    a.set_params_dyn_sys({})
    same(W, a, plain(W, P), P, "unchanged by setting nothing", sol=False)
