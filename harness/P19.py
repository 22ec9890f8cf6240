"""P19: contextual DMPs (two-step): the movement is that of the DMP with the parameters predicted for the context."""
from harness.dm import D

BOUNDS = ("2-3 demonstrations of 2 time steps, movement dimension 1-2, context dimension 1-2, several DMP types, selected parameters: "
          "those of the approximators, the goal, both; arbitrary (uninterpreted) parametric function approximators and policy functions; start and goal of a demonstration differ, with a fixed sign pattern")

SEL = {"w": ["w"], "goal": ["goal"], "both": ["goal", "w"]}


class TableFA:
    """arbitrary parametric function approximator that fits its training data exactly; its parameters are its outputs there"""

    def __init__(self, W, name):
        self.W, self.name, self.xs, self.values, self.names = W, name, None, None, None

    def __deepcopy__(self, memo):
        o = TableFA(self.W, self.name)
        o.xs, o.names = self.xs, self.names
        o.values = None if self.values is None else self.W.np.array(self.values)
        return o

    def is_trained(self):
        return self.values is not None

    def train(self, inputs, targets, **kw):
        W = self.W
        x = W.np.array(inputs)
        self.xs = x.reshape(x.shape[0], -1)
        self.values = W.np.array(targets).reshape(-1)

    def predict(self, inputs):
        W = self.W
        x = W.np.array(inputs)
        x = x.reshape(x.shape[0], -1)
        if x.shape[1] != self.xs.shape[1]:
            raise ValueError("dimension")
        out = []
        for r in range(x.shape[0]):
            for i in range(self.xs.shape[0]):
                if all(self.xs[i, k] is x[r, k] or bool(self.xs[i, k] == x[r, k]) for k in range(x.shape[1])):
                    out.append(self.values[i])
                    break
            else:
                out.append(W.uf(self.name, *[x[r, k] for k in range(x.shape[1])], *[self.values[i] for i in range(self.values.size)]))
        return W.arr(out)

    def set_selected_param_names(self, names):
        self.names = list(names)

    def get_param_vector_size(self):
        return self.values.size if self.names else 0

    def get_param_vector(self):
        return self.W.np.array(self.values) if self.names else self.W.np.zeros(0)

    def set_param_vector(self, v):
        if self.names:
            if len(v) != self.values.size:
                raise ValueError("size")
            self.values = self.W.np.array(v)


def cases(tier):
    out = []
    types = ("IJSPEERT_2002_MOVEMENT", "COUNTDOWN_2013") if tier == "quick" else \
        ("IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "SCT23")
    for t in types:
        for d in (1, 2):
            for nc in (1, 2):
                if tier == "quick" and (t != types[0] and nc == 2 or d == 2 and nc == 1):
                    continue
                for sel in SEL:
                    for n in (2, 3) if d == 1 else (2,):
                        p = dict(typ=t, d=d, nc=nc, sel=sel, n=n)
                        nm = f"{t}_d{d}_c{nc}_{sel}_n{n}"
                        out.append(dict(name=f"train_{nm}", fn="train", params=p))
                        if sel != "goal":
                            out.append(dict(name=f"reproduce_{nm}", fn="reproduce", params=p))
                        if n == 2:
                            out.append(dict(name=f"context_{nm}", fn="context", params=p))
    for f in ("guards", "from_dmp", "retrain", "settings", "single_ppf"):
        out.append(dict(name=f, fn=f, params=dict(typ="IJSPEERT_2002_MOVEMENT", d=1, nc=1, sel="both", n=2)))
    return out


def demos(W, n, d, nc, same, p=""):
    T = W.cls("dmps.Trajectory")
    dt = W.var(p + "dt", W.q(1, 10), 2)
    y0, g = W.vec(p + "y0", d, -3, 3), W.vec(p + "g", d, -3, 3)
    out = []
    for i in range(n):
        if not same:
            if W.params["typ"] == "IJSPEERT_2002_MOVEMENT":  # (others: a common duration)
                dt = W.var(f"{p}dt{i}", W.q(1, 10), 2)
            y0, g = W.vec(f"{p}y0{i}", d, -3, 3), W.vec(f"{p}g{i}", d, -3, 3)
        for j in range(d):  # (the range of a demonstration is computed, which otherwise branches)
            W.assume(y0[j] < g[j] if (i * (not same) + j) % 2 == 0 else y0[j] > g[j])
        ts = W.arr([W.const(0), dt])
        ys = W.np.vstack([y0, g])
        tr = T(ts, ys, W.mat(f"{p}yd{i}", 2, d, -3, 3), W.mat(f"{p}ydd{i}", 2, d, -3, 3))
        c = W.vec(f"{p}c{i}", nc, -3, 3)
        for c2, _ in out:
            W.assume(c[0] != c2[0])
        out.append((c, tr))
    return out


def n_params(W):
    d, sel = W.params["d"], W.params["sel"]
    return (2 * d if sel != "goal" else 0) + (d if sel != "w" else 0)


def cdmp(W, data, ppf=None, **k):
    d = W.params["d"]
    ppf = ppf or [TableFA(W, f"P{i}") for i in range(n_params(W))]
    C = W.cls("dmps.DmpContextualTwoStep")
    return C.from_trajs(data, [TableFA(W, f"F{i}") for i in range(d)], SEL[W.params["sel"]], ppf, dmp_type=W.params["typ"], **k)


def single(W, tr, first):
    """a DMP for the first demonstration that is then trained on another one"""
    x = D(W)(first.ts[-1], first.ys[0], first.ys[-1], [TableFA(W, f"F{i}") for i in range(W.params["d"])], dmp_type=W.params["typ"])
    x.train(tr)
    x.set_selected_param_names(SEL[W.params["sel"]])
    return x


def q(W, c):
    """a context as it is passed to the approximators: one row"""
    return c.reshape(1, -1)


def train(W):
    """means of the demonstrations; one policy function per parameter, trained on (context, parameter)"""
    data = demos(W, W.params["n"], W.params["d"], W.params["nc"], False)
    keep = [(W.np.array(c), W.np.array(t.ts), W.np.array(t.ys), W.np.array(t.yds), W.np.array(t.ydds)) for c, t in data]
    ppf = [TableFA(W, f"P{i}") for i in range(n_params(W))]
    c = cdmp(W, data, ppf)
    n = len(data)
    W.eq(c.tau, sum(t.ts[-1] for _, t in data) / n, "mean duration")
    W.eq(c.y_init, sum(t.ys[0] for _, t in data) / n, "mean start")
    W.eq(c.y_attr, sum(t.ys[-1] for _, t in data) / n, "mean goal")
    W.true(c.dim_dmp() == W.params["d"], "dimension")
    for i, (ctx, tr) in enumerate(data):
        want = single(W, tr, data[0][1]).get_param_vector()
        W.true(want.size == len(ppf), "number of parameters")
        for j, f in enumerate(ppf):
            W.eq(f.predict(q(W, ctx))[0], want[j], "policy functions are trained on the parameters of each demonstration")
    for (a, b, y, yd, ydd), (ctx, t) in zip(keep, data):
        for u, v in zip((a, b, y, yd, ydd), (ctx, t.ts, t.ys, t.yds, t.ydds)):
            W.eq(u, v, "demonstrations are not modified")


def reproduce(W):
    """demonstrations with a common duration, start and goal: the movement for a demonstrated context is that of the demonstration"""
    data = demos(W, W.params["n"], W.params["d"], W.params["nc"], True)
    c = cdmp(W, data)
    order = list(range(len(data)))[::-1] + [0]
    for i in order:
        ctx, tr = data[i]
        ref = single(W, tr, data[0][1])
        for u, v in zip(c.analytical_solution(q(W, ctx), tr.ts), ref.analytical_solution(tr.ts)):
            W.eq(u, v, "movement of the demonstration")
        for u, v in zip(c.integrate_start(q(W, ctx)), ref.integrate_start()):
            W.eq(u, v, "start of the demonstration")


def context(W):
    """any context: the DMP with the mean settings and the predicted parameters"""
    data = demos(W, W.params["n"], W.params["d"], W.params["nc"], False)
    ppf = [TableFA(W, f"P{i}") for i in range(n_params(W))]
    c = cdmp(W, data, ppf)
    ctx = q(W, W.vec("ctx", W.params["nc"], -3, 3))
    for k in range(W.params["nc"]):
        for cc, _ in data:
            W.assume(ctx[0, 0] != cc[0])
    theta = W.arr([f.predict(ctx)[0] for f in ppf])
    # the reference: the last demonstration fixes where the approximators have their parameters
    ref = single(W, data[-1][1], data[0][1])
    ref.tau, ref.y_init, ref.y_attr = c.tau, W.np.array(c.y_init), W.np.array(c.y_attr)
    ref.set_param_vector(theta)
    if W.params["sel"] != "w":
        W.eq(ref.y_attr, theta[theta.size - W.params["d"]:], "predicted goal")
    c.set_task_params(ctx)
    W.eq(c.dmp.get_param_vector(), theta, "the predicted parameters are set")
    for u, v in zip(c.integrate_start(ctx), ref.integrate_start()):
        W.eq(u, v, "start")
    x, xd = ref.integrate_start()
    x = x + W.vec("dx", x.size, 0, W.q(1, 10))
    W.eq(c.differential_equation(x), ref.differential_equation(x), "rates of change")
    ts = W.arr([W.const(0), W.q(1, 3) * c.tau])
    res = c.analytical_solution(ctx, ts)
    for u, v in zip(res, ref.analytical_solution(ts)):
        W.eq(u, v, "analytical solution")
    tr = c.states_as_trajectory(ts, res[0], res[1])
    W.eq(tr.ys, res[0][:, :W.params["d"]], "positions")
    p, v, a = c.states_as_pos_vel_acc(res[0], res[1])
    W.eq(p, tr.ys, "positions")
    W.eq(v, tr.yds, "velocities")
    W.eq(a, tr.ydds, "accelerations")


def single_ppf(W):
    """one approximator is copied for every parameter, and is itself left alone"""
    data = demos(W, 2, 1, 1, True)
    one = TableFA(W, "P")
    c = cdmp(W, data, one)
    W.true(not one.is_trained(), "the approximator passed in is only a template")
    for ctx, tr in data:
        c.set_task_params(q(W, ctx))
        W.eq(c.dmp.get_param_vector(), single(W, tr, data[0][1]).get_param_vector(), "parameters of the demonstration")


def guards(W):
    data = demos(W, 2, 1, 1, True)
    for k in (n_params(W) - 1, n_params(W) + 1):
        W.raises(lambda: cdmp(W, data, [TableFA(W, f"P{i}") for i in range(k)]), "one policy function per parameter", RuntimeError)


def from_dmp(W):
    data = demos(W, 2, 1, 1, False)
    a = cdmp(W, data)
    base = D(W)(W.pos("tau", 3), W.vec("b0", 1, -3, 3), W.vec("bg", 1, -3, 3), [TableFA(W, "F0")], dmp_type=W.params["typ"])
    C = W.cls("dmps.DmpContextualTwoStep")
    b = C.from_dmp(data, base, SEL[W.params["sel"]], [TableFA(W, f"P{i}") for i in range(n_params(W))])
    ctx = q(W, W.vec("ctx", 1, -3, 3))
    ts = W.arr([W.const(0), W.q(1, 3) * a.tau])
    for u, v in zip(a.analytical_solution(ctx, ts), b.analytical_solution(ctx, ts)):
        W.eq(u, v, "a DMP that is passed is trained like one constructed from the demonstrations")


def retrain(W):
    data, other = demos(W, 2, 1, 1, False), demos(W, 3, 1, 1, False, "o")
    a, b = cdmp(W, other), cdmp(W, data)
    a.train(data, SEL[W.params["sel"]], [TableFA(W, f"P{i}") for i in range(n_params(W))])
    ctx = q(W, W.vec("ctx", 1, -3, 3))
    ts = W.arr([W.const(0), W.q(1, 3) * a.tau])
    for u, v in zip(a.analytical_solution(ctx, ts), b.analytical_solution(ctx, ts)):
        W.eq(u, v, "earlier demonstrations are forgotten")


def settings(W):
    """time constant, start and goal can be set, as for any DMP"""
    W.params["sel"] = "w"
    data = demos(W, 2, 1, 1, False)
    c = cdmp(W, data)
    tau, y0, g = W.pos("tau", 3), W.vec("ny0", 1, -3, 3), W.vec("ng", 1, -3, 3)
    c.tau, c.y_init, c.y_attr = tau, W.np.array(y0), W.np.array(g)
    W.eq(c.tau, tau, "time constant")
    W.eq(c.y_init, y0, "start")
    W.eq(c.y_attr, g, "goal")
    ctx = q(W, data[0][0])
    c.set_task_params(ctx)
    ref = D(W)(tau, y0, g, c.dmp._function_approximators, dmp_type=W.params["typ"])
    for u, v in zip(c.integrate_start(ctx), ref.integrate_start()):
        W.eq(u, v, "like a DMP with these settings")
    ts = W.arr([W.const(0), W.q(1, 3) * c.tau])
    for u, v in zip(c.analytical_solution(ctx, ts), ref.analytical_solution(ts)):
        W.eq(u, v, "like a DMP with these settings")
