"""The C++ DMP does what the Python DMP with the same parameters does."""
from harness import dm, dsys
from harness import fa as FA

CPP = True
BOUNDS = ("1 and 2 dimensions; movement types with at most an exponential goal system and constant damping; all scaling methods; arbitrary time constants, starts, goals, "
          "spring and damping parameters, states; arbitrary function approximators (exported models: one or two basis functions with arbitrary parameters); "
          "one changed value after another; closed form at 3 (changed or exported movements: 2) increasing times, single integration steps")
OUTSIDE = ("movement types with a Richards goal system or a damping system, which the C++ library does not have; transformation systems that are not spring-dampers; "
           "per-dimension spring and damping parameters; rounding")
ASSUMPTIONS = ["the C++ sources are compiled by g++ 13 with a symbolic number type in place of double; Eigen 3.4 runs unchanged on that type"]
TYPES = ("IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013")


def amps(W, P):
    return P["amp"] if "amp" in P else W.np.zeros(0)


def ufas(W, d):
    return [W.cpp("ufa", f"F{i}") for i in range(d)]


def subs(W, typ, tau, y0, g, gating=None):
    """the subsystems of a movement type, as C++ objects and as Python objects (keywords)"""
    one, zero = W.arr([1]), W.arr([0])
    E, T, S = (W.cls(f"dynamicalsystems.{n}System") for n in ("Exponential", "Time", "Sigmoid"))
    if typ == "IJSPEERT_2002_MOVEMENT":
        return ([None, W.cpp("exponential", tau, one, zero, 4), W.cpp("exponential", tau, one, zero, 4)],
                dict(goal_system=None, phase_system=E(tau, one, zero, 4), gating_system=E(tau, one, zero, 4)))
    down = typ == "COUNTDOWN_2013"
    r, q = W.var("rate", -12, -1), W.var("infl", 0.5, 1)
    return ([W.cpp("exponential", tau, y0, g, 15), W.cpp("time", tau, "1" if down else "0"), W.cpp("sigmoid", tau, one, r, q)],
            dict(goal_system=E(tau, y0, g, 15), phase_system=T(tau, down), gating_system=S(tau, one, r, q)))


def state(W, P, py, p="s"):
    x = dm.state(W, P, py, p)
    return x


def compare(W, P, h, py, parts=("start", "deq", "ana", "step"), fa=True):
    d = P["d"]
    n = 3 * d + 2
    W.eq(W.arr(list(W.cpp("dims", h))), W.arr([n, n, d]), "dimensions")
    W.eq(W.cpp("tau", h), py.tau, "time constant")
    y, y2, dd = W.cpp("dmp_y_init", h)
    W.eq(y, py.y_init, "initial position")
    W.eq(y2, py.y_init, "initial position")
    W.eq(dd, d, "number of dimensions of the movement")
    W.eq(W.cpp("y_init", h), py.y_init, "initial position")
    if "ana" in parts:
        ts = W.increasing("t", W.params.get("times", 3), start=W.var("t0", 0, 1), gap_hi=2)
        want = py.analytical_solution(ts)
        r = W.cpp("ana_dmp", h, ts)
        for i, what in enumerate(("states", "rates")):
            W.eq(r[i], want[i][:, :n], "closed form: " + what)
        W.eq(r[2], want[2], "closed form: forcing terms")
        W.eq(r[3], want[3], "closed form: function approximator outputs")
        pva = py.states_as_pos_vel_acc(want[0], want[1])
        for i in range(3):
            W.eq(r[4 + i], pva[i], "closed form: positions, velocities, accelerations")
            W.eq(r[8 + i], pva[i], "closed form: trajectory")
        W.eq(r[7], ts, "closed form: times of the trajectory")
        a = W.cpp("ana", h, ts)
        if n != 3:
            b = W.cpp("ana", h, ts, "transposed")
            W.eq(a[0], want[0][:, :n], "closed form again")
            W.eq(b[0], want[0][:, :n].T, "closed form transposed: states")
            W.eq(b[1], want[1][:, :n].T, "closed form transposed: rates")
    if "start" in parts:
        px, pxd = py.integrate_start()
        x, xd = W.cpp("start", h)
        W.eq(x, px[:n], "first state")
        W.eq(xd, pxd[:n], "first rate")
    if "deq" in parts or "step" in parts:
        s = state(W, P, py)
    if "deq" in parts:
        pxd = py.differential_equation(s)
        xd, same = W.cpp("deq", h, s[:n])
        W.eq(xd, pxd[:n], "rate of change")
        W.eq(same, s[:n], "the state given is unchanged")
        pva = py.states_as_pos_vel_acc(s, pxd)
        for a, b in zip(W.cpp("pos_vel_acc", h, s[:n], pxd[:n]), pva):
            W.eq(a, b, "position, velocity, acceleration of a state")
    if "step" in parts:
        dt = W.pos("dt", 1)
        px, pxd = py.integrate_step_euler(dt, s)
        r = W.cpp("step", h, dt, s[:n], "euler")
        W.eq(r[0], px[:n], "Euler step: state")
        W.eq(r[1], pxd[:n], "Euler step: rate")


def build(W, P, **over):
    """C++ DMP from subsystems with arbitrary function approximators, and a function making the Python one"""
    d = P["d"]
    Q = dict(P, **over)
    cs, kw = subs(W, P["typ"], Q["tau"], Q["y0"], Q["g"])
    c = W.var("damping", 1, 30)
    h = W.cpp("dmp_sub", Q["tau"], Q["y0"], Q["g"], c, amps(W, P), *cs, *ufas(W, d), P["scal"])
    return h, c


def python(W, P, c, k=None, fa="stub", **over):
    Q = dict(P, **over)
    _, kw = subs(W, P["typ"], Q["tau"], Q["y0"], Q["g"])
    S = W.cls("dynamicalsystems.SpringDamperSystem")
    kw["transformation_system"] = S(Q["tau"], Q["y0"], Q["g"], c) if k is None else S(Q["tau"], Q["y0"], Q["g"], c, k)
    Q["kw"] = dict(Q["kw"], **kw)
    return dm.build(W, Q, fa)


def given(W):
    """constructed from subsystems"""
    P = dm.setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    h, c = build(W, P)
    compare(W, P, h, python(W, P, c), W.params["parts"])


def changed(W):
    """after changing values one after another: as if constructed with the last values"""
    P = dm.setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    d = P["d"]
    h, c = build(W, P)
    k = c * c / 4
    over = {}
    parts = W.params["parts"]
    if "start" in parts and W.choose(2):     # used before
        W.cpp("start", h)
        W.cpp("deq", h, W.vec("before", 3 * d + 2, 0, 1, strict_lo=True, strict_hi=True))
    for i in range(W.params["steps"]):
        w = W.choose(7)
        if w == 0:
            over["tau"] = W.pos(f"tau{i}", 3)
            W.cpp("set_tau", h, over["tau"])
        elif w == 1:
            over["y0"] = W.vec(f"y0n{i}", d, -3, 3)
            W.cpp("set_y_init", h, over["y0"])
        elif w == 2:
            over["y0"] = W.vec(f"y0n{i}", d, -3, 3)
            W.cpp("set_y_init", h, over["y0"], "base")
        elif w == 3:
            over["g"] = W.vec(f"gn{i}", d, -3, 3)
            W.cpp("set_y_attr", h, over["g"])
        elif w == 4:
            c = W.var(f"cn{i}", 1, 30)
            W.cpp("set_damping", h, c)
        elif w == 5:
            k = W.var(f"kn{i}", 1, 200)
            W.cpp("set_spring", h, k)
        else:
            over["y0"] = W.vec(f"y0n{i}", d, -3, 3)
            W.cpp("start", h, over["y0"])
    compare(W, P, h, python(W, P, c, k, **over), parts)


def started(W):
    """integrateStart with a new initial position"""
    P = dm.setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    h, c = build(W, P)
    y = W.vec("yn", P["d"], -3, 3)
    x, xd = W.cpp("start", h, y)
    px, pxd = python(W, P, c, y0=y).integrate_start()
    n = 3 * P["d"] + 2
    W.eq(x, px[:n], "first state")
    W.eq(xd, pxd[:n], "first rate")
    for i in range(2):
        dt = W.pos("dt", 1) if i == 0 else dt
        r = W.cpp("step_inplace", h, dt, x, "euler")
        px, pxd = python(W, P, c, y0=y).integrate_step_euler(dt, px)
        x = r[0]
        W.eq(x, px[:n], f"state after {i + 1} steps")


def typed(W):
    """constructed from the name of the movement type"""
    P = dm.setup(W, W.params["d"], W.params["typ"], W.params["scal"])
    d = P["d"]
    n = W.choose(2)
    if n:
        P["tau"], P["y0"], P["g"] = W.q(1), W.np.zeros(d), W.np.ones(d)
        h = W.cpp("dmp_type_n", amps(W, P), *ufas(W, d), P["typ"], P["scal"], str(d))
    else:
        h = W.cpp("dmp_type", P["tau"], P["y0"], P["g"], amps(W, P), *ufas(W, d), P["typ"], P["scal"])
    over = {}
    if P["typ"] != "IJSPEERT_2002_MOVEMENT":
        over["gating_system"] = W.cls("dynamicalsystems.SigmoidSystem")(P["tau"], W.arr([1]), -10, W.q(9, 10))
    P["kw"] = over
    compare(W, P, h, dm.build(W, P), W.params["parts"])


def numbered(W):
    """constructed from subsystems and the number of dimensions"""
    P = dm.setup(W, W.params["d"], W.params["typ"])
    d = P["d"]
    P["tau"], P["y0"], P["g"] = W.q(1), W.np.zeros(d), W.np.ones(d)
    cs, _ = subs(W, P["typ"], P["tau"], P["y0"], P["g"])
    c = W.var("damping", 1, 30)
    h = W.cpp("dmp_sub_n", c, amps(W, P), *cs, *ufas(W, d), P["scal"], str(d))
    compare(W, P, h, python(W, P, c), W.params["parts"])


def noforcing(W):
    """without function approximators there is no forcing term"""
    d = W.params["d"]
    P = dm.setup(W, d, "IJSPEERT_2002_MOVEMENT")
    c = W.var("damping", 1, 30)
    E = W.cls("dynamicalsystems.ExponentialSystem")
    how = W.choose(3)
    if how == 0:
        h = W.cpp("dmp_goal", P["tau"], P["y0"], P["g"], c)
        py = python(W, P, c, fa=None)
    elif how == 1:
        h = W.cpp("dmp_goal", P["tau"], P["y0"], P["g"], c, W.cpp("exponential", P["tau"], P["y0"], P["g"], 15))
        _, kw = subs(W, P["typ"], P["tau"], P["y0"], P["g"])
        kw["goal_system"] = E(P["tau"], P["y0"], P["g"], 15)
        kw["transformation_system"] = W.cls("dynamicalsystems.SpringDamperSystem")(P["tau"], P["y0"], P["g"], c)
        P["kw"] = kw
        py = dm.build(W, P, None)
    else:
        cs, _ = subs(W, P["typ"], P["tau"], P["y0"], P["g"])
        h = W.cpp("dmp_sub", P["tau"], P["y0"], P["g"], c, amps(W, P), *cs, P["scal"])
        py = python(W, P, c, fa=None)
    compare(W, P, h, py, W.params["parts"])


def exported(W):
    """exported from Python, read by C++ (and written and read again by C++)"""
    d, k = W.params["d"], W.params["fa"]
    P = dm.setup(W, d, W.params["typ"], W.params["scal"])
    ms = [FA.trained(W, k, 1, W.params["nb"], f"f{i}")[0] for i in range(d)]
    spring = W.params.get("spring")
    over = {}
    if spring:
        S = W.cls("dynamicalsystems.SpringDamperSystem")
        over["kw"] = dict(P["kw"], transformation_system=S(P["tau"], P["y0"], P["g"], W.var("c", 1, 30), W.var("k", 1, 200),
                                                           *([W.var("m", 0.25, 4)] if spring == "km" else [])))
    py = dm.build(W, P, ms, **over)
    if W.params.get("set"):
        py.tau = W.pos("tau_new", 3)
        py.y_init = W.vec("y_new", d, -3, 3)
        py.y_attr = W.vec("g_new", d, -3, 3)
    f = W.tmpdir() + "/dmp.json"
    W.mod("dmpbbo.json_for_cpp").savejson_for_cpp(f, py)
    with open(f) as fh:
        h = W.cpp("dmp_json", fh.read())
    if W.params.get("again"):
        t = W.cpp("sys_to_json", h)
        W.cpp("delete_sys", h)
        h = W.cpp("dmp_json", t)
    compare(W, P, h, py, W.params["parts"])
    W.cpp("delete_sys", h)


def cases(tier):
    out = []
    K, I = "KULVICIUS_2012_JOINING", "IJSPEERT_2002_MOVEMENT"

    def add(name, fn, parts=("start", "deq", "ana", "step"), **p):
        groups = [parts]
        if len(parts) == 4 and (fn in ("changed", "exported") or p["d"] == 2 and fn == "given") and p.get("typ") != I:
            groups = [("ana",), ("start", "deq"), ("step",)]
        for g in groups:
            if fn == "changed" and g == ("ana",) and p["scal"] != "G_MINUS_Y0_SCALING":
                continue
            out.append(dict(name=name + ("-" + g[0] if len(groups) > 1 else ""), fn=fn, params=dict(p, parts=g, times=2 if fn in ("changed", "exported") else 3)))
    for typ in TYPES:
        for scal in dm.SCALINGS:
            for d in (1, 2):
                s = f"{typ[:3]}-{scal[:3]}-d{d}"
                add("given-" + s, "given", typ=typ, scal=scal, d=d)
                if d == 1 or scal == "NO_SCALING":
                    add("typed-" + s, "typed", typ=typ, scal=scal, d=d)
                if d == 1:
                    add("changed-" + s, "changed", typ=typ, scal=scal, d=d, steps=1)
        add(f"started-{typ[:3]}", "started", typ=typ, scal="G_MINUS_Y0_SCALING", d=2)
        add(f"numbered-{typ[:3]}", "numbered", typ=typ, d=2)
        for k in ("RBFN", "LWR"):
            add(f"exported-{typ[:3]}-{k}", "exported", typ=typ, scal="NO_SCALING", d=1, fa=k, nb=2 if k == "RBFN" else 1, again=False)
        add(f"exported-{typ[:3]}-amp", "exported", typ=typ, scal="AMPLITUDE_SCALING", d=2, fa="RBFN", nb=1, set=True)
        add(f"exported-{typ[:3]}-spring", "exported", typ=typ, scal="G_MINUS_Y0_SCALING", d=1, fa="RBFN", nb=1, spring="k")
        add(f"exported-{typ[:3]}-spring-mass", "exported", typ=typ, scal="G_MINUS_Y0_SCALING", d=1, fa="RBFN", nb=1, spring="km")
        add(f"exported-{typ[:3]}-again", "exported", typ=typ, scal="AMPLITUDE_SCALING", d=1, fa="LWR", nb=1, spring="km", again=True)
    for d in (1, 2):
        add(f"noforcing-d{d}", "noforcing", d=d)
    for typ in (I, K):
        for parts in (("start", "deq"), ("ana",))[:2 if typ == I else 1]:
            add(f"changed2-{typ[:3]}-{parts[0]}", "changed", parts=parts, typ=typ, scal="G_MINUS_Y0_SCALING", d=1, steps=2)
    return out
