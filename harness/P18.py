"""P18: DMPs with schedules: schedules are predicted from the phase, respect their bounds, and leave the movement alone."""
from harness.dm import TYPES, build, setup, state, fas, FA

BOUNDS = ("1-3 schedules, movement dimension 1-2, lower and upper bounds absent, scalar or one per schedule (arbitrary values, including "
          "0), arbitrary (uninterpreted) function approximators, 1-3 time steps, several DMP types")


def cases(tier):
    out = []
    types = ("IJSPEERT_2002_MOVEMENT", "COUNTDOWN_2013") if tier == "quick" else TYPES
    for t in types:
        for ns in (1, 2, 3):
            for lo in (None, "scalar", "array"):
                for hi in (None, "scalar", "array"):
                    for part in ("start", "step", "sol"):
                        if ns == 3 and (part != "start" or (tier == "quick" and t != types[0])):
                            continue
                        out.append(dict(name=f"bounds_{t}_s{ns}_{lo}_{hi}_{part}", fn="bounds",
                                        params=dict(typ=t, d=1, ns=ns, lo=lo, hi=hi, part=part)))
        for ns in (1, 2):
            for given in (0, 1):
                out.append(dict(name=f"train_{t}_s{ns}_given{given}", fn="train", params=dict(typ=t, d=2, ns=ns, given=given)))
        for sel in (["goal"], ["w"], ["sched_w"], ["w", "sched_w"], ["goal", "sched_w", "w"], []):
            for ns in (1, 2):
                out.append(dict(name=f"params_{t}_s{ns}_{'-'.join(sel)}", fn="parameters", params=dict(typ=t, d=2, ns=ns, sel=sel)))
    for f in ("guards", "zero_bound"):
        out.append(dict(name=f, fn=f, params={}))
    return out


def make(W, P, F, S, **k):
    C = W.cls("dmps.DmpWithSchedules")
    return C(P["tau"], W.np.array(P["y0"]), W.np.array(P["g"]), F, S, dmp_type=P["typ"], **k)


def bound(W, kind, name, ns):
    if kind is None:
        return None
    return W.var(name, -3, 3) if kind == "scalar" else W.vec(name, ns, -3, 3)


def bounds(W):
    typ, d, ns, lo, hi = (W.params[k] for k in ("typ", "d", "ns", "lo", "hi"))
    P = setup(W, d, typ)
    S = [FA(W, f"S{i}") for i in range(ns)]
    a, b = bound(W, lo, "lo", ns), bound(W, hi, "hi", ns)
    L = lambda v, i: v if not hasattr(v, "shape") or getattr(v, "shape", ()) == () else v[i]
    if lo and hi:
        for i in range(ns):
            W.assume(L(a, i) <= L(b, i))
    k = {}
    if lo:
        k["min_schedules"] = a
    if hi:
        k["max_schedules"] = b
    dmp, plain = make(W, P, fas(W, d), S, **k), build(W, P)
    W.true(dmp.dim_schedules() == ns, "number of schedules")

    def check(row, phase, msg):
        for i in range(ns):
            v, raw = row[i], W.uf(f"S{i}", phase)
            if lo:
                W.le(L(a, i), v, msg + ": not below the minimum")
            if hi:
                W.le(v, L(b, i), msg + ": not above the maximum")
            inside = (not lo or bool(raw >= L(a, i))) and (not hi or bool(raw <= L(b, i)))
            if inside:
                W.eq(v, raw, msg + ": the prediction where it is within the bounds")
            else:
                W.true((lo and v == L(a, i)) | (hi and v == L(b, i)) if lo and hi else (v == (L(a, i) if lo else L(b, i))),
                       msg + ": the bound elsewhere")

    part = W.params["part"]
    if part != "sol":
        x, xd, s = dmp.integrate_start_sched()
        px, pxd = plain.integrate_start()
    if part == "start":
        W.eq(x, px, "the movement starts as without schedules")
        W.eq(xd, pxd, "the movement starts as without schedules")
        W.true(s.shape == (ns,), "one value per schedule")
        check(s, x[dmp.PHASE][0], "at the start")
    elif part == "step":
        x = state(W, P, plain)
        dt = W.var("dt", 0, 1)
        x2, xd2, s2 = dmp.integrate_step_sched(dt, x)
        px2, pxd2 = plain.integrate_step(dt, x)
        W.eq(x2, px2, "a step is the same as without schedules")
        W.eq(xd2, pxd2, "a step is the same as without schedules")
        check(s2, x2[dmp.PHASE][0], "after a step")
    else:
        ts = W.arr([W.const(0), W.q(1, 10) * P["tau"]][2 - (1 if lo and hi and ns > 1 else 2):])
        n = ts.size
        xs, xds, ss, f, fo = dmp.analytical_solution_sched(ts)
        for u, v, m in zip((xs, xds, f, fo), plain.analytical_solution(ts), ("states", "rates", "forcing terms", "outputs")):
            W.eq(u, v, f"the movement is the same as without schedules ({m})")
        W.true(ss.shape == (n, ns), "one row per time and one column per schedule")
        for i in range(n):
            check(ss[i], xs[i, dmp.PHASE][0], "analytical solution")
        tr = dmp.states_as_trajectory_sched(ts, xs, xds, ss)
        W.eq(tr.misc, ss, "schedules are the misc part of the trajectory")
        W.eq(tr.ys, xs[:, dmp.SPRING_Y], "positions")


def demo(W, d, ns, misc):
    ts = W.arr([W.const(0), W.var("dt", W.q(1, 10), 2)])
    ys = W.mat("y", 2, d, -3, 3)
    for j in range(d):
        W.assume(ys[0, j] != ys[1, j])
    sch = W.mat("sch", 2, ns, -3, 3)
    return W.cls("dmps.Trajectory")(ts, ys, W.mat("yd", 2, d, -3, 3), W.mat("ydd", 2, d, -3, 3), sch if misc else None), sch


def train(W):
    typ, d, ns, given = (W.params[k] for k in ("typ", "d", "ns", "given"))
    tr, sch = demo(W, d, ns, not given)
    C = W.cls("dmps.DmpWithSchedules")
    F, S = fas(W, d, False), [FA(W, f"S{i}", False) for i in range(ns)]
    kw = dict(schedules=sch) if given else {}
    keep = W.np.array(sch)
    a = C.from_traj_sched(tr, F, S, dmp_type=typ, **kw)
    b = W.cls("dmps.Dmp").from_traj(tr, fas(W, d, False), dmp_type=typ)
    xs, xds, ss, f, fo = a.analytical_solution_sched()
    for u, v in zip((xs, xds, f, fo), b.analytical_solution()):
        W.eq(u, v, "the movement is trained as without schedules", tol=1e-5)
    W.eq(ss, sch, "schedules are reproduced (exactly interpolating approximators)")
    for i in range(ns):
        W.eq(S[i].inputs.reshape(-1), xs[:, a.PHASE].reshape(-1), "schedules are trained on the phase")
    W.eq(sch, keep, "the schedules passed in are not modified")


def parameters(W):
    typ, d, ns, sel = (W.params[k] for k in ("typ", "d", "ns", "sel"))
    P = setup(W, d, typ)
    F = [FA(W, f"F{i}", True, 2) for i in range(d)]
    S = [FA(W, f"S{i}", i == 0, 2) for i in range(ns)]
    for f in F + S:
        f.values = W.vec("v" + f.name, 2, -3, 3)
    dmp = make(W, P, F, S)
    dmp.set_selected_param_names(sel)
    parts = []
    if "w" in sel:
        parts += [W.np.array(f.values) for f in F]
    if "goal" in sel:
        parts.append(P["g"])
    if "sched_w" in sel:
        parts.append(W.np.array(S[0].values))
    n = sum(p.size for p in parts)
    W.true(dmp.get_param_vector_size() == n, "size")
    v = dmp.get_param_vector()
    W.true(v.shape == (n,), "one vector")
    if parts:
        W.eq(v, W.np.concatenate(parts), "parameters of the movement, then of the (trained) schedules")
    w = W.vec("new", n, -3, 3)
    old = {f.name: W.np.array(f.values) for f in F + S}
    dmp.set_param_vector(w)
    W.eq(dmp.get_param_vector(), w, "get(set(v)) = v")
    off = 0
    for f in F:
        W.eq(f.values, w[off:off + 2] if "w" in sel else old[f.name], "approximators of the movement")
        off += 2 if "w" in sel else 0
    W.eq(dmp.y_attr, w[off:off + d] if "goal" in sel else P["g"], "goal")
    off += d if "goal" in sel else 0
    W.eq(S[0].values, w[off:off + 2] if "sched_w" in sel else old["S0"], "approximators of the schedules")
    for f in S[1:]:
        W.eq(f.values, old[f.name], "untrained approximators are left alone")
    for bad in (n - 1, n + 1):
        if bad >= 0:
            W.raises(lambda: dmp.set_param_vector(W.np.zeros(bad)), "a vector of the wrong size is refused", ValueError)


def guards(W):
    tr, sch = demo(W, 1, 2, False)
    C = W.cls("dmps.DmpWithSchedules")
    mk = lambda: (fas(W, 1, False), [FA(W, "S0", False), FA(W, "S1", False)])
    W.raises(lambda: C.from_traj_sched(tr, *mk()), "schedules are needed for training", ValueError)
    tr2, sch2 = demo(W, 1, 3, True)
    W.raises(lambda: C.from_traj_sched(tr2, *mk()), "one approximator per schedule is needed", ValueError)
    P = setup(W, 1, "IJSPEERT_2002_MOVEMENT")
    W.raises(lambda: make(W, P, *mk()).analytical_solution_sched(), "times are needed before training", ValueError)


def zero_bound(W):
    """zero is a bound like any other"""
    P = setup(W, 1, "IJSPEERT_2002_MOVEMENT")
    dmp = make(W, P, fas(W, 1), [FA(W, "S0")], min_schedules=0)
    _, _, s = dmp.integrate_start_sched()
    W.le(0, s[0], "not below zero")
    dmp = make(W, P, fas(W, 1), [FA(W, "S0")], max_schedules=0)
    _, _, s = dmp.integrate_start_sched()
    W.le(s[0], 0, "not above zero")
