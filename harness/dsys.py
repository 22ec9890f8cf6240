"""constructors shared by the dynamical-system harnesses"""


def par(W, name, d, arr, **k):
    return W.vec(name, d, **k) if arr else W.var(name, **k)


KINDS = ("exponential", "sigmoid", "spring", "springkm", "richards", "richards_left", "time", "time_down")


def params(W, kind, d, arr, p=""):
    """symbolic constructor parameters (a dict)"""
    P = {"tau": W.pos(p + "tau", 5)}
    if kind == "exponential":
        P.update(x0=W.vec(p + "x0", d, -5, 5), xa=W.vec(p + "xa", d, -5, 5), alpha=par(W, p + "alpha", d, arr, lo=0, hi=6))
    elif kind == "sigmoid":
        P.update(x0=W.vec(p + "x0", d, 0, 5, strict_lo=True), r=par(W, p + "r", d, arr, lo=-4, hi=4),
                 infl=par(W, p + "infl", d, arr, lo=0, hi=1))
    elif kind in ("spring", "springkm"):
        P.update(x0=W.vec(p + "x0", d, -5, 5), xa=W.vec(p + "xa", d, -5, 5),
                 c=par(W, p + "c", d, arr, lo=0, hi=20, strict_lo=True))
        if kind == "springkm":
            P.update(k=par(W, p + "k", d, arr, lo=0, hi=50, strict_lo=True),
                     m=par(W, p + "m", d, arr, lo=0, hi=4, strict_lo=True))
    elif kind in ("richards", "richards_left"):
        P.update(x0=W.vec(p + "x0", d, -5, 5), ratio=par(W, p + "ratio", d, arr, lo=0, hi=1),
                 alpha=par(W, p + "alpha", d, arr, lo=0, hi=6, strict_lo=True), v=1)
        P["xa"] = P["x0"] + W.vec(p + "range", d, 0, 5, strict_lo=True)
        if kind == "richards_left":
            P["left"] = P["x0"] - W.vec(p + "gap", d, 0, 5, strict_lo=True)
    return P


def build(W, kind, P):
    C = lambda n: W.cls(f"dynamicalsystems.{n}System")
    if kind == "exponential":
        return C("Exponential")(P["tau"], P["x0"], P["xa"], P["alpha"])
    if kind == "sigmoid":
        return C("Sigmoid")(P["tau"], P["x0"], P["r"], P["infl"])
    if kind == "spring":
        return C("SpringDamper")(P["tau"], P["x0"], P["xa"], P["c"])
    if kind == "springkm":
        return C("SpringDamper")(P["tau"], P["x0"], P["xa"], P["c"], P["k"], P["m"])
    if kind in ("richards", "richards_left"):
        s = C("Richards")(P["tau"], P["x0"], P["xa"], P["ratio"], P["alpha"], P["v"])
        if kind == "richards_left":
            s.set_left_asymp(P["left"])
        return s
    return C("Time")(P["tau"], kind == "time_down")


def dim_x(kind, d):
    return 1 if kind.startswith("time") else 2 * d if kind.startswith("spring") else d


def state(W, kind, d, P, p="s"):
    """an arbitrary current state in the domain of the system"""
    if kind.startswith("time"):
        return W.vec(p, 1, 0, 1)
    if kind.startswith("richards"):
        return P["x0"] + W.vec(p, d, 0, 3)
    return W.vec(p, dim_x(kind, d), -5, 5)
