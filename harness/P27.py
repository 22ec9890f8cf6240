"""P27: an optimization evaluates the mean, samples, evaluates and updates once per update, and records exactly that."""
from harness.P24 import spd

BOUNDS = ("0-3 updates of 1-3 samples, dimension 1-2 (2 when read back from a directory), arbitrary (uninterpreted) cost functions with 1-3 components, rollouts and updates, arbitrary "
          "initial distributions and random samples; in memory, stored in a directory, and read back from it by a new session")
OUTSIDE = "cost functions returning a bare number; reading back arrays with a dimension of size one (the text files do not store it)"


def cases(tier):
    out = []
    for what in ("cost", "task"):
        for u, n, d, k in ((0, 2, 2, 2), (1, 1, 1, 1), (1, 3, 2, 3), (2, 2, 2, 2), (3, 2, 1, 2)):
            out.append(dict(name=f"{what}_memory_u{u}_n{n}_d{d}", fn="loop", params=dict(u=u, n=n, d=d, k=k, what=what, dir=False)))
        for u, n, d, k in ((1, 2, 2, 2), (2, 2, 2, 3), (3, 3, 2, 2)):
            out.append(dict(name=f"{what}_dir_u{u}_n{n}_d{d}", fn="loop", params=dict(u=u, n=n, d=d, k=k, what=what, dir=True)))
        for upd in ("UpdaterMean", "UpdaterCovarDecay", "UpdaterCovarAdaptation"):
            out.append(dict(name=f"{what}_real_{upd}", fn="real", params=dict(u=2, n=2, d=2, k=1, what=what, upd=upd, dir=False)))
    return out


def comp(W, name, k, *xs):
    a = [v for x in xs for v in W.np.array(x).reshape(-1)]
    return W.arr([W.uf(f"{name}{i}", *a) for i in range(k)])


NOW = {}        # world and log of the current run (the objects below can be saved and loaded)


class Same:
    def __deepcopy__(self, memo):
        return self


class Cost(Same):
    def __init__(self, k):
        self.k = k

    def evaluate(self, sample):
        W = NOW["W"]
        NOW["log"].append(("cost", W.np.array(sample)))
        return comp(W, "c", self.k, sample)

    def get_cost_labels(self):
        return [f"label{i}" for i in range(self.k)]


class MyTask(Cost):
    def evaluate_rollout(self, cost_vars, sample):
        W = NOW["W"]
        NOW["log"].append(("evaluate", W.np.array(cost_vars), W.np.array(sample)))
        return comp(W, "e", self.k, cost_vars, sample)


class Solver(Same):
    def perform_rollout(self, sample, **kw):
        W = NOW["W"]
        NOW["log"].append(("rollout", W.np.array(sample)))
        return comp(W, "r", 4, sample).reshape(2, 2)


class Dist:
    """a distribution whose samples are arbitrary functions of its mean, covariance and the number of the draw"""

    def __init__(self, mean, covar):
        self.mean, self.covar = mean, covar

    def samples(self, draw, n):
        W = NOW["W"]
        d = len(self.mean)
        return comp(W, f"s{draw}_", n * d, self.mean, self.covar).reshape(n, d)

    def generate_samples(self, n=1):
        NOW["draws"] += 1
        return self.samples(NOW["draws"] - 1, n)


class Upd(Same):
    """arbitrary update: new mean, covariance and weights are uninterpreted functions of everything passed in"""

    def __init__(self, d):
        self.d = d

    def new(self, dist, samples, costs):
        W = NOW["W"]
        a = (dist.mean, dist.covar, samples, W.np.array([W.np.array(c) for c in costs]))
        V = W.np.array(dist.covar)
        return Dist(comp(W, "m", self.d, *a), V * (2 + W.uf("v", *[x for q in a for x in q.reshape(-1)]) ** 2)), comp(W, "w", len(costs), *a)

    def update_distribution(self, dist, samples, costs):
        NOW["upd"].append((dist, NOW["W"].np.array(samples), list(costs)))
        return self.new(dist, samples, costs)


def cost_of(W, P, s):
    if P["what"] == "cost":
        return comp(W, "c", P["k"], s)
    return comp(W, "e", P["k"], comp(W, "r", 4, s).reshape(2, 2), s)


def start(W, updater=None):
    P = W.params
    u, n, d, k = P["u"], P["n"], P["d"], P["k"]
    log = []
    NOW.update(W=W, log=log, upd=[], draws=0)
    cost, task, solver = Cost(k), MyTask(k), Solver()
    D = W.cls("bbo.DistributionGaussian") if updater else Dist
    mu, C = W.vec("mu", d, -3, 3), spd(W, d)
    dist = D(mu, C)
    upd = updater or Upd(d)
    keep = W.np.array(mu), W.np.array(C)
    where = W.tmpdir() if P["dir"] else None
    if P["what"] == "cost":
        s = W.mod("dmpbbo.bbo.run_optimization").run_optimization(cost, dist, upd, u, n, where)
    else:
        s = W.mod("dmpbbo.bbo_of_dmps.run_optimization_task").run_optimization_task(task, solver, dist, upd, u, n, where)
    W.eq(dist.mean, keep[0], "the initial distribution keeps its mean")
    W.eq(dist.covar, keep[1], "the initial distribution keeps its covariance")
    return P, log, dist, upd, where, s


def check(W, P, s, dist, log, step, msg):
    """the records of the session s describe an optimization that starts at dist and whose updates are step()"""
    u, n, d, k = P["u"], P["n"], P["d"], P["k"]
    W.true(s.get_n_updates() == u, msg + "number of updates")
    if s.get_n_updates() != u:
        return
    cur = dist
    costs_eval = []
    for i in range(u):
        eq = lambda a, b, m: W.eq(a, b, f"{msg}{m}")
        eq(s.ask("eval_sample", i), cur.mean, "the mean is evaluated")
        e = cost_of(W, P, cur.mean)
        costs_eval.append(e)
        eq(s.ask("eval_cost", i), e, "with its cost")
        r = s.ask("distribution", i)
        eq(r.mean, cur.mean, "distribution before the update (mean)")
        eq(r.covar, cur.covar, "distribution before the update (covariance)")
        x = W.np.array(s.ask("samples", i))
        W.true(x.shape == (n, d), msg + "number of samples")
        if type(cur) is Dist:
            eq(x, cur.samples(i, n), "the samples are drawn from the current distribution")
        c = s.ask("costs", i)
        W.true(len(c) == n, msg + "one cost per sample")
        ec = [cost_of(W, P, x[j]) for j in range(n)]
        for j in range(n):
            eq(c[j], ec[j], "cost of a sample")
        nd, w = step(cur, x, ec)
        eq(s.ask("weights", i), w, "weights")
        r = s.ask("distribution_new", i)
        eq(r.mean, nd.mean, "the new distribution is the update (mean)")
        eq(r.covar, nd.covar, "the new distribution is the update (covariance)")
        if P["what"] == "task":
            eq(s.ask("eval_cost_vars", i), comp(W, "r", 4, cur.mean).reshape(2, 2), "rollout of the mean")
            for j in range(n):
                eq(s.ask("sample", i, j), x[j], "sample of a rollout")
                eq(s.ask("cost_vars", i, j), comp(W, "r", 4, x[j]).reshape(2, 2), "rollout of a sample")
                eq(s.ask("cost", i, j), ec[j], "cost of a rollout")
        cur = nd
    W.true(s.ask("n_samples_per_update") == n, msg + "number of samples per update")
    curve, labels = s.get_learning_curve()
    W.true(len(curve) == u, msg + "one point of the learning curve per update")
    for i in range(min(u, len(curve))):
        W.eq(curve[i], W.np.concatenate((W.arr([W.const(i * n)]), costs_eval[i])),
             msg + "learning curve: number of evaluations, costs of the mean")
    W.true(list(labels) == [f"label{i}" for i in range(k)], msg + "cost labels")
    if u:
        a, b = s.get_eval_cost_before_after()
        W.eq(a, costs_eval[0], msg + "cost before learning")
        W.eq(b, costs_eval[-1], msg + "cost after learning")


def loop(W):
    P, log, dist, upd, where, s = start(W)
    u, n, d, k = P["u"], P["n"], P["d"], P["k"]
    check(W, P, s, dist, log, upd.new, "")
    # exactly one evaluation of the mean and of each sample per update
    ev = [e for e in log if e[0] in ("cost", "evaluate")]
    W.true(len(ev) == u * (n + 1), "the mean and each sample are evaluated exactly once")
    W.true(len([e for e in log if e[0] == "rollout"]) == (0 if P["what"] == "cost" else u * (n + 1)), "one rollout per evaluation")
    W.true(NOW["draws"] == u, "one batch of samples per update")
    W.true(len(NOW["upd"]) == u, "one update of the distribution per update")
    for i, (dd, xs, cs) in enumerate(NOW["upd"]):
        W.eq(xs, s.ask("samples", i), "the update uses the samples")
        for j in range(n):
            W.eq(cs[j], cost_of(W, P, xs[j]), "and their costs")
    if where:
        t = W.cls("bbo.LearningSession").from_dir(where) if P["what"] == "cost" else W.cls("bbo_of_dmps.LearningSessionTask").from_dir(where)
        check(W, P, t, dist, log, upd.new, "read back: ")


def real(W):
    U = W.cls("bbo.updaters", W.params["upd"])(eliteness=1, weighting_method="CEM")
    P, log, dist, upd, where, s = start(W, U)
    check(W, P, s, dist, log, U.update_distribution, "")
