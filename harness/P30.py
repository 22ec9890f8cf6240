"""P30: a task solver's rollout is the movement of the DMP with the sample as its parameters."""
from harness.dm import FA, build, setup

BOUNDS = ("dimension 1-2, several DMP types and scalings, function approximators with 1-2 parameters each (arbitrary functions of phase and "
          "parameters), goal selected or not, 2-4 samples in time for any time constant, step and factor; sequences of 2-3 rollouts")
OUTSIDE = "durations within a hundredth of a multiple of the time step (rounding decides the number of steps there)"

CASES = (("KULVICIUS_2012_JOINING", "NO_SCALING"), ("COUNTDOWN_2013", "G_MINUS_Y0_SCALING"), ("IJSPEERT_2002_MOVEMENT", "AMPLITUDE_SCALING"),
         ("SCT23", "NO_SCALING"))


def cases(tier):
    out = []
    for t, s in CASES:
        for sel in (("w",), ("goal",), ("w", "goal")):
            for frame in (False, True):
                if frame and sel != ("w",):
                    continue
                out.append(dict(name=f"rollout_{t}_{'-'.join(sel)}_frame{int(frame)}", fn="rollout",
                                params=dict(t=t, s=s, d=1 if t == "SCT23" else 2, sel=list(sel), n=1, frame=frame)))
        out.append(dict(name=f"history_{t}", fn="history", params=dict(t=t, s=s, d=1, sel=["w", "goal"], n=1)))
    for n in (1, 2, 3):
        out.append(dict(name=f"times_{n}", fn="times", params=dict(t="KULVICIUS_2012_JOINING", s="NO_SCALING", d=1, sel=["w"], n=n)))
    return out


class PFA(FA):
    """arbitrary function of phase and parameters"""

    def __deepcopy__(self, memo):
        o = PFA(self.W, self.name, self.on, self.n)
        o.names = self.names
        o.values = self.W.np.array(self.values)
        return o

    def f(self, p):
        return self.W.uf(self.name, p, *[self.values[i] for i in range(self.n)])

    def set_param_vector(self, v):
        if self.names and self.names != ["goal"]:
            if len(v) != self.n:
                raise ValueError("size")
            self.values = self.W.np.array(v)

    def get_param_vector_size(self):
        return self.n if self.names else 0


def fa(W, d, values=None):
    F = []
    for i in range(d):
        f = PFA(W, f"F{i}", True, i + 1)
        f.values = W.vec(f"v{i}", f.n, -3, 3) if values is None else W.np.array(values[i])
        F.append(f)
    return F


def make(W):
    p = W.params
    P = setup(W, p["d"], p["t"], p["s"])
    dmp = build(W, P, fa(W, p["d"]))
    dmp.set_selected_param_names(p["sel"])
    n = p["n"]
    k = W.var("k", n + W.q(1, 100), n + W.q(99, 100))      # the movement lasts k time steps
    factor = W.var("factor", W.q(1, 2), 3)
    T = P["tau"] * factor
    if p["t"] == "IJSPEERT_2002_MOVEMENT" or "COUNTDOWN" in p["t"] or p["t"] == "SCT23":
        W.assume(factor != 1)
    dt = T / k
    S = W.cls("bbo_of_dmps.TaskSolverDmp")
    s = S(dmp, dt, factor, True) if p.get("frame") else S(dmp, dt, factor)
    ts = W.arr([T * i / n for i in range(n + 1)])
    return P, dmp, s, ts, dt


def size(W, d, sel):
    return (sum(i + 1 for i in range(d)) if "w" in sel else 0) + (d if "goal" in sel else 0)


def expected(W, P, sample, ts, F0):
    """the movement of a DMP constructed with the parameters"""
    p = W.params
    d, sel = p["d"], p["sel"]
    vals, off = [f.values for f in F0], 0
    if "w" in sel:
        vals = []
        for i in range(d):
            vals.append(sample[off:off + i + 1])
            off += i + 1
    g = sample[off:] if "goal" in sel else P["g"]
    dmp = build(W, P, fa(W, d, vals), g=g)
    xs, xds, _, _ = dmp.analytical_solution(ts)
    tr = dmp.states_as_trajectory(ts, xs, xds)
    return W.np.concatenate([W.np.array(ts).reshape(-1, 1), tr.ys, tr.yds, tr.ydds], axis=1)


def same(W, r, M, msg):
    d = W.params["d"]
    if W.params.get("frame"):
        names = ["t"] + [f"{s}{i}" for s in ("y", "yd", "ydd") for i in range(d)]
        W.true(list(r.columns) == names, "columns of the dataframe")
        for j, c in enumerate(names):
            v = list(r[c])
            W.true(len(v) == M.shape[0], "one row per time")
            for i in range(M.shape[0]):
                W.eq(v[i], M[i, j], msg)
        return
    W.true(r.shape == M.shape, msg + ": one row per time step; time, positions, velocities, accelerations")
    if r.shape == M.shape:
        W.eq(r, M, msg)


def rollout(W):
    P, dmp, s, ts, dt = make(W)
    p = W.params
    v = W.vec("sample", size(W, p["d"], p["sel"]), -3, 3)
    keep = W.np.array(v)
    same(W, s.perform_rollout(v), expected(W, P, v, ts, dmp._function_approximators), "the rollout is the movement with the sample as parameters")
    W.eq(v, keep, "the sample is not modified")
    W.eq(dmp.y_attr, P["g"], "the DMP passed in keeps its goal")
    for i, f in enumerate(dmp._function_approximators):
        W.eq(f.values, fa(W, p["d"])[i].values, "the DMP passed in keeps its parameters")


def history(W):
    P, dmp, s, ts, dt = make(W)
    p = W.params
    n = size(W, p["d"], p["sel"])
    u, v = W.vec("u", n, -3, 3), W.vec("v_", n, -3, 3)
    F0 = fa(W, p["d"])
    op = W.choose(4)
    if op == 0:
        s.perform_rollout(u)
    elif op == 1:
        dmp.set_param_vector(u)       # the solver has its own copy
    elif op == 2:
        dmp.tau = P["tau"] * 2
    else:
        other = build(W, P, fa(W, p["d"], [f.values + 1 for f in F0]))
        r = s.perform_rollout_dmp(other)
        xs, xds, _, _ = other.analytical_solution(ts)
        tr = other.states_as_trajectory(ts, xs, xds)
        W.eq(r, W.np.concatenate([W.np.array(ts).reshape(-1, 1), tr.ys, tr.yds, tr.ydds], axis=1), "rollout of another DMP")
    same(W, s.perform_rollout(v), expected(W, P, v, ts, F0), "earlier rollouts, and changes of the DMP passed in, have no influence")
    same(W, s.perform_rollout(v), expected(W, P, v, ts, F0), "repeating a rollout repeats its result")


def times(W):
    P, dmp, s, ts, dt = make(W)
    n = W.params["n"]
    r = s.perform_rollout(dmp.get_param_vector())
    W.true(r.shape[0] == n + 1, "as many time steps as fit")
    if r.shape[0] == n + 1:
        W.eq(r[0, 0], 0, "starts at time zero")
        W.eq(r[n, 0], ts[n], "ends at the time constant times the factor")
        for i in range(n):
            W.le(dt, r[i + 1, 0] - r[i, 0] + W.q(1, 10 ** 9), "steps are not shorter than requested")
            W.le(r[i + 1, 0] - r[i, 0], 2 * dt, "nor twice as long")
    W.eq(r, expected(W, P, dmp.get_param_vector(), ts, fa(W, 1)), "movement at these times")
