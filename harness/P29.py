"""P29: step-by-step optimization (rollouts done elsewhere) performs the same updates as the loop, and hands out the right DMPs."""
import harness.P27 as base
from harness.P27 import NOW, Same, Dist, Upd, comp
from harness.P30 import size
from harness.dm import build, setup

BOUNDS = ("1-2 updates of 1-3 samples, DMPs of 1-2 dimensions with 1-3 parameters, the selected goal or both, arbitrary (uninterpreted) costs of rollouts, "
          "rollouts, samples and updates; in one session, and with a new session per update read from the directory")
OUTSIDE = "sessions without a directory (refused by the implementation); the text of the files for C++ (see P31)"


def cases(tier):
    out = []
    for u, n, d, sel in ((1, 2, 1, ["w", "goal"]), (2, 2, 2, ["w"]), (2, 1, 1, ["w", "goal"]), (1, 3, 2, ["goal"]), (2, 2, 1, ["w"]), (1, 2, 2, ["w", "goal"])):
        for re in (False, True):
            out.append(dict(name=f"steps_u{u}_n{n}_d{d}_{'-'.join(sel)}_reload{int(re)}", fn="steps", params=dict(u=u, n=n, d=d, sel=sel, k=2, re=re)))
    for upd in ("UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation"):
        out.append(dict(name=f"real_{upd}", fn="steps", params=dict(u=1, n=2, d=1, sel=["w", "goal"], k=2, re=False, upd=upd)))
    return out


class JFA(Same):
    """function approximator with parameters; everything in it can be saved"""

    def __init__(self, n, values):
        self.n, self.values, self.names = n, values, []

    def __deepcopy__(self, memo):
        o = JFA(self.n, NOW["W"].np.array(self.values))
        o.names = list(self.names)
        return o

    def is_trained(self):
        return True

    def set_selected_param_names(self, names):
        self.names = [x for x in names if x != "goal"]

    def get_param_vector_size(self):
        return self.n if self.names else 0

    def get_param_vector(self):
        W = NOW["W"]
        return W.np.array(self.values) if self.names else W.np.zeros(0)

    def set_param_vector(self, v):
        if self.names:
            if len(v) != self.n:
                raise ValueError("size")
            self.values = NOW["W"].np.array(v)


def fa(W, d):
    return [JFA(i + 1, W.vec(f"v{i}", i + 1, -3, 3)) for i in range(d)]


class Task(Same):
    def __init__(self, k):
        self.k = k

    def evaluate_rollout(self, cost_vars, sample):
        return comp(NOW["W"], "e", self.k, cost_vars, sample)

    def get_cost_labels(self):
        return [f"label{i}" for i in range(self.k)]


def steps(W):
    from harness.P24 import spd
    p = W.params
    u, n, d, sel, k = (p[x] for x in ("u", "n", "d", "sel", "k"))
    NOW.update(W=W, log=[], upd=[], draws=0)
    mod = W.mod("dmpbbo.bbo_of_dmps.step_by_step_optimization")
    P = setup(W, d, "KULVICIUS_2012_JOINING")
    F0 = fa(W, d)
    dmp0 = build(W, P, fa(W, d))
    dmp0.set_selected_param_names(sel)
    N = size(W, d, sel)
    mu, C = W.vec("mu", N, -3, 3), spd(W, N)
    real = "upd" in p
    dist = W.cls("bbo.DistributionGaussian")(mu, C) if real else Dist(mu, C)
    upd = W.cls("bbo.updaters", p["upd"])(eliteness=1, weighting_method="CEM") if real else Upd(N)
    task = Task(k)
    where = W.tmpdir()
    first = dmp0.get_param_vector()
    s = mod.prepare_optimization(where, task, None, dist, n, upd, dmp0)
    W.eq(dmp0.get_param_vector(), first, "the initial DMP is not modified")
    W.eq(dist.mean, mu, "the initial distribution is not modified")
    S = W.cls("bbo_of_dmps.LearningSessionTask")
    cur = dist
    evals = []
    for i in range(u):
        W.true(s.get_n_updates() == i, "number of updates")
        x = W.np.array(s.ask("samples", i)).reshape(n, -1)
        W.true(x.shape == (n, N), "one sample per rollout, one column per parameter")
        if not real:
            W.eq(x, cur.samples(i, n), "samples are drawn from the current distribution")
        rolls = []
        for j in list(range(n)) + ["eval"]:
            dmp = s.ask("dmp", i, j)
            want = cur.mean if j == "eval" else x[j]
            W.eq(dmp.get_param_vector(), want, "the DMP of a rollout has the sample (evaluation: the mean) as parameters")
            W.eq(dmp.y_init, P["y0"], "and the initial state of the initial DMP")
            W.eq(dmp.tau, P["tau"], "and its time constant")
            if "goal" not in sel:
                W.eq(dmp.y_attr, P["g"], "and its goal")
            if "w" not in sel:
                W.eq(dmp._function_approximators[0].values, F0[0].values, "and its other parameters")
            cv = W.arr([[W.var(f"roll{i}_{j}_{a}{b}", -3, 3) for b in range(2)] for a in range(2)])
            rolls.append(cv)
            s.tell(cv, "cost_vars", i, j)
        if p["re"]:
            s = S.from_dir(where)
        mod.update_step(s, i)
        if p["re"]:
            s = S.from_dir(where)
        ec = [comp(W, "e", k, rolls[j], x[j]) for j in range(n)]
        evals.append(comp(W, "e", k, rolls[n], cur.mean))
        for j in range(n):
            W.eq(s.ask("costs", i, j), ec[j], "costs of a rollout")
        W.eq(s.ask("costs", i, "eval"), evals[i], "costs of the evaluation rollout")
        totals = [c[0] for c in ec]
        nd, w = upd.update_distribution(cur, x, totals) if real else upd.new(cur, x, totals)
        W.eq(W.np.array(s.ask("weights", i)).reshape(-1), w, "weights")
        r = s.ask("distribution", i)
        W.eq(r.mean, cur.mean, "distribution before the update (mean)")
        W.eq(r.covar, cur.covar, "distribution before the update (covariance)")
        for key, q in (("distribution_new", i), ("distribution", i + 1)):
            r = s.ask(key, q)
            W.eq(r.mean, nd.mean, "the distribution is updated with the samples and the total costs of their rollouts (mean)")
            W.eq(r.covar, nd.covar, "the distribution is updated with the samples and the total costs of their rollouts (covariance)")
        cur = nd
    W.true(s.get_n_updates() == u, "number of updates")
    W.true(s.exists("samples", u) and all(s.exists("dmp", u, j) for j in list(range(n)) + ["eval"]), "the next rollouts are prepared")
    W.eq(s.ask("dmp", u, "eval").get_param_vector(), cur.mean, "the next evaluation has the updated mean")
    W.eq(s.ask("dmp_initial").get_param_vector(), first, "the initial DMP is kept")
    L, labels = s.get_learning_curve()
    W.true(len(L) == u, "one point of the learning curve per update")
    for i in range(min(u, len(L))):
        W.eq(L[i], W.np.concatenate((W.arr([W.const(i * n)]), evals[i])), "learning curve: number of samples, costs of the evaluation rollouts")
