"""P04: behaviour depends on the current configuration only, not on the history that led to it."""
import itertools
from harness.dsys import KINDS, params, build, dim_x, state

OPS = ("tau", "y_init", "x_init", "y_attr", "de", "sol", "start", "start_y", "step", "decouple", "x_attr", "count_down")
BOUNDS = ("every sequence of up to 2 (thorough 3) operations out of " + ", ".join(OPS) + " on every shipped system, state "
          "dimension 1-2, every argument an arbitrary real")


def cases(tier):
    out = []
    for k in KINDS:
        for d in ((1,) if k.startswith("time") else (1, 2)):
            ops = [o for o in OPS if applies(k, o)]
            for o in ops:
                out.append(dict(name=f"{k}_d{d}_{o}", fn="history", params=dict(k=k, d=d, first=o, ops=ops,
                                                                               n=1 if tier == "quick" else 2)))
            out.append(dict(name=f"decouple_{k}_d{d}", fn="decouple", params=dict(k=k, d=d)))
            out.append(dict(name=f"pure_{k}_d{d}", fn="pure", params=dict(k=k, d=d)))
    return out


def applies(k, o):
    if o == "y_attr":
        return k in ("exponential", "spring", "springkm", "richards", "richards_left")
    if o == "x_attr":
        return k == "exponential"
    if o == "count_down":
        return k.startswith("time")
    return True


def act(W, s, P, k, d, op, i):
    p = f"op{i}"
    n = dim_x(k, d)

    def fresh_init():
        if k.startswith("richards"):
            hi = P["xa"]
            return hi - W.vec(p + "r", d, 0, 5, strict_lo=True)
        if k == "sigmoid":
            return W.vec(p + "i", d, 0, 5, strict_lo=True)
        return W.vec(p + "i", d, 0 if k.startswith("time") else -5, 1 if k.startswith("time") else 5)
    if op == "tau":
        P["tau"] = W.pos(p + "tau", 5)
        s.tau = P["tau"]
    elif op == "y_init":
        P["x0"] = fresh_init()
        P.pop("z0", None)
        s.y_init = W.np.array(P["x0"])
    elif op == "x_init":
        P["x0"] = fresh_init()
        if n == 2 * d:
            P["z0"] = W.vec(p + "z", d, -5, 5)
            s.x_init = W.np.concatenate((P["x0"], P["z0"]))
        else:
            s.x_init = W.np.array(P["x0"])
    elif op == "y_attr":
        P["xa"] = P["x0"] + W.vec(p + "range", d, 0, 5, strict_lo=True) if k.startswith("richards") else W.vec(p + "xa", d, -5, 5)
        s.y_attr = W.np.array(P["xa"])
    elif op == "x_attr":
        P["xa"] = W.vec(p + "xa", d, -5, 5)
        s.x_attr = W.np.array(P["xa"])
    elif op == "count_down":
        P["down"] = not P.get("down", k == "time_down")
        s.count_down = P["down"]
        W.true(s.count_down == P["down"], "the direction set is the direction of the time system")
        P.pop("x0", None)
    elif op == "de":
        s.differential_equation(state(W, k, d, P, p + "s"))
    elif op == "sol":
        s.analytical_solution(W.arr([W.var(p + "t", 0, 5)]))
    elif op == "start":
        s.integrate_start()
    elif op == "start_y":
        P["x0"] = fresh_init()
        P.pop("z0", None)
        s.integrate_start(W.np.array(P["x0"]))
    elif op == "step":
        s.integrate_step_euler(W.pos(p + "dt", 1), state(W, k, d, P, p + "s"))
    elif op == "decouple":
        s.decouple_parameters()


def compare(W, s, f, k, d, P, msg):
    x = state(W, k, d, P, "cmp")
    W.eq(s.differential_equation(x), f.differential_equation(x), msg + " (differential equation)")
    ts = W.arr([W.const(0), W.var("cmpt", 0, 5)])
    a, b = s.analytical_solution(ts), f.analytical_solution(ts)
    W.eq(a[0], b[0], msg + " (solution states)")
    W.eq(a[1], b[1], msg + " (solution rates)")
    a, b = s.integrate_start(), f.integrate_start()
    W.eq(a[0], b[0], msg + " (initial state)")
    W.eq(a[1], b[1], msg + " (initial rate)")
    W.eq(s.tau, f.tau, msg + " (tau)")
    W.eq(s.y_init, f.y_init, msg + " (y_init)")
    W.eq(s.x_init, f.x_init, msg + " (x_init)")


def fresh(W, k, P, d):
    f = build(W, "time_down" if P["down"] else "time", P) if "down" in P else build(W, k, P)
    if k.startswith("time") and "x0" in P:
        f.x_init = W.np.array(P["x0"])
    if "z0" in P:
        f.x_init = W.np.concatenate((P["x0"], P["z0"]))
    return f


def history(W):
    k, d, ops = W.params["k"], W.params["d"], W.params["ops"]
    P = params(W, k, d, 0)
    s = build(W, k, P)
    act(W, s, P, k, d, W.params["first"], 0)
    for i in range(W.params["n"]):
        act(W, s, P, k, d, ops[W.choose(len(ops))], i + 1)
    compare(W, s, fresh(W, k, P, d), k, d, P, "same behaviour as a system constructed that way")


def decouple(W):
    """scalar parameters expanded to arrays mean the same"""
    k, d = W.params["k"], W.params["d"]
    P = params(W, k, d, 0)
    s, f = build(W, k, P), build(W, k, P)
    compare(W, s, f, k, d, P, "deterministic")
    s.decouple_parameters()
    compare(W, s, f, k, d, P, "decoupled parameters")
    s.decouple_parameters()
    compare(W, s, f, k, d, P, "decoupled twice")
    Q = {n: (W.np.full((d,), v) if n in ("alpha", "c", "k", "m", "r", "infl", "ratio") else v) for n, v in P.items()}
    compare(W, build(W, k, Q), f, k, d, P, "array parameters")


def pure(W):
    """no call modifies its arguments, and repeating a call repeats its result"""
    k, d = W.params["k"], W.params["d"]
    P = params(W, k, d, 1)
    s = build(W, k, P)
    keep = {n: W.np.array(v) for n, v in P.items()}
    x = state(W, k, d, P)
    ts = W.arr([W.const(0), W.var("t1", 0, 5)])
    x_, ts_, dt = W.np.array(x), W.np.array(ts), W.pos("dt", W.q(1, 10))
    calls = dict(de=lambda: (s.differential_equation(x),), sol=lambda: s.analytical_solution(ts),
                 euler=lambda: s.integrate_step_euler(dt, x), start=lambda: s.integrate_start())
    first = {n: [W.np.array(a) for a in c()] for n, c in calls.items()}
    for n in list(calls)[::-1] + list(calls):
        again = calls[n]()
        for a, b in zip(first[n], again):
            W.eq(a, b, f"repeating {n} repeats its result")
    W.eq(x, x_, "state argument unchanged")
    W.eq(ts, ts_, "times argument unchanged")
    for n, v in P.items():
        W.eq(v, keep[n], f"constructor argument {n} unchanged")
