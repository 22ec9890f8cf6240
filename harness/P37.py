"""P37: the costs of the example tasks."""

BOUNDS = ("2-3 samples in time (quick; thorough 4), dimension 1-2 (arm: 2-3 joints), every combination of zero and positive weights, a radius or "
          "none, a via-point time or none, a goal or none; all times, positions, accelerations, samples and weights arbitrary reals")
OUTSIDE = "via-point and goal times after the end of the rollout; ties between samples equally close to the via-point"
TASKS = "demos.python.bbo_of_dmps."


def cases(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for d in (1, 2):
        for t in (0, 1):
            for r in (0, 1):
                out.append(dict(name=f"viapoint_d{d}_time{t}_radius{r}", fn="viapoint", params=dict(d=d, n=n if d == 1 else 2, t=t, r=r)))
        out.append(dict(name=f"goal_d{d}", fn="goal", params=dict(d=d, n=n)))
        out.append(dict(name=f"weights_d{d}", fn="weights", params=dict(d=d, n=n)))
        out.append(dict(name=f"frame_d{d}", fn="frame", params=dict(d=d, n=n)))
        out.append(dict(name=f"gains_d{d}", fn="gains", params=dict(d=d, n=n)))
        out.append(dict(name=f"point_d{d}", fn="point", params=dict(d=d)))
    for j in (2, 3):
        out.append(dict(name=f"arm_{j}", fn="arm", params=dict(j=j, n=2)))
    out.append(dict(name="throw", fn="throw", params=dict(n=n)))
    out.append(dict(name="defaults", fn="defaults", params=dict(d=2, n=2)))
    return out


def rollout(W, n, d, extra=0):
    """columns: time, positions, velocities, accelerations, others"""
    m = W.np.zeros((n, 1 + 3 * d + extra))
    m[:, 0] = W.increasing("t", n, gap_hi=2)
    m[:, 1:] = W.mat("m", n, 3 * d + extra, -3, 3)
    return m


def norm2(W, v):
    return W.np.sum(v * v)


def is_norm(W, a, v, msg):
    W.le(0, a, msg + " (not negative)")
    W.eq(a * a, norm2(W, v), msg)


def total(W, c, labels, n):
    W.true(len(c) == n + 1, "a total and one cost per component")
    if labels is not None:
        W.true(len(labels) == n, "one label per cost component")
    s = c[1]
    for i in range(2, n + 1):
        s = s + c[i]
    W.eq(c[0], s, "the first cost is the sum of the others")


def task(W, **k):
    d = W.params["d"]
    v = W.vec("via", d, -3, 3)
    return W.mod(TASKS + "TaskViapoint").TaskViapoint(W.np.array(v), **k), v


def via_time(W, ts, n):
    """a time within the rollout, and the index of the first sample not before it"""
    i = W.choose(n - 1) + 1
    t = W.var("vt", -3, 10)
    W.assume(t <= ts[i]), W.assume(t > ts[i - 1])
    return t, i


def viapoint(W):
    d, n = W.params["d"], W.params["n"]
    m, w = rollout(W, n, d), W.pos("w", 5)
    k = dict(viapoint_weight=w, acceleration_weight=0.0)
    i = None
    if W.params["t"]:
        k["viapoint_time"], i = via_time(W, m[:, 0], n)
    r = W.const(0)
    if W.params["r"]:
        r = k["viapoint_radius"] = W.pos("r", 3)
    T, v = task(W, **k)
    if i is None:  # the closest sample
        i = W.choose(n)
        for j in range(n):
            if j != i:
                W.assume(norm2(W, m[i, 1:1 + d] - v) < norm2(W, m[j, 1:1 + d] - v))
    keep = W.np.array(m)
    c = T.evaluate_rollout(m, W.vec("s", 2, -3, 3))
    W.eq(m, keep, "the rollout is not modified")
    total(W, c, T.get_cost_labels(), 4)
    p = m[i, 1:1 + d] - v
    W.le(0, c[1], "costs are not negative")
    if norm2(W, p) >= r * r:
        is_norm(W, c[1] / w + r, p, "weighted distance to the via-point, minus the radius")
    else:
        W.eq(c[1], W.const(0), "no cost within the radius")
    for j in (2, 3, 4):
        W.eq(c[j], W.const(0), "weight zero: no cost")
    t, y = T.get_waypoint(m[:, 0], m[:, 1:1 + d])
    W.eq(t, k.get("viapoint_time", m[i, 0]), "time of the waypoint")
    W.eq(y, m[i, 1:1 + d], "waypoint")
    W.true(T.n_dims() == d, "dimension of the via-point")


def goal(W):
    """mean distance to the goal from the goal time on; accelerations are averaged over the whole rollout"""
    d, n = W.params["d"], W.params["n"]
    m, w, wa = rollout(W, n, d), W.pos("w", 5), W.pos("wa", 5)
    t, i = via_time(W, m[:, 0], n)
    g = W.vec("g", d, -3, 3)
    T, v = task(W, goal=W.np.array(g), goal_time=t, goal_weight=w, viapoint_weight=0.0, acceleration_weight=wa)
    c = T.evaluate_rollout(m, W.vec("s", 2, -3, 3))
    total(W, c, T.get_cost_labels(), 4)
    s = W.const(0)
    for j in range(i, n):
        s = s + W.np.sqrt(norm2(W, m[j, 1:1 + d] - g))
    W.eq(c[3] * (n - i), w * s, "weighted mean distance to the goal from the goal time on")
    W.eq(c[2] * n * d, wa * norm2(W, m[:, 1 + 2 * d:1 + 3 * d]), "mean squared acceleration over all samples and dimensions")
    W.eq(c[1], W.const(0), "weight zero: no cost")
    W.eq(c[4], W.const(0), "weight zero: no cost")
    W.raises(lambda: task(W, goal=W.np.zeros(d + 1)), "a goal of another size is refused", ValueError)


def weights(W):
    """acceleration and regularization, each weighted or not"""
    d, n = W.params["d"], W.params["n"]
    m, s = rollout(W, n, d), W.vec("s", 3, -3, 3)
    wa, wr = (W.pos("wa", 5) if W.choose(2) else W.const(0)), (W.pos("wr", 5) if W.choose(2) else W.const(0))
    T, _ = task(W, viapoint_weight=0.0, acceleration_weight=wa, regularization_weight=wr)
    keep = W.np.array(s)
    c = T.evaluate_rollout(m, s)
    W.eq(s, keep, "the sample is not modified")
    total(W, c, T.get_cost_labels(), 4)
    W.eq(c[2] * n * d, wa * norm2(W, m[:, 1 + 2 * d:1 + 3 * d]), "mean squared acceleration over all samples and dimensions")
    if wr > 0:
        is_norm(W, c[4] / wr, s, "weighted norm of the sample")
    else:
        W.eq(c[4], W.const(0), "weight zero: no cost")
    W.eq(c[1], W.const(0), "weight zero: no cost")
    W.eq(c[3], W.const(0), "weight zero: no cost")


def frame(W):
    """a rollout given as dataframe costs the same as the matrix"""
    d, n = W.params["d"], W.params["n"]
    m, s = rollout(W, n, d), W.vec("s", 2, -3, 3)
    f = W.mod("dmpbbo.dmps.Trajectory").Trajectory.from_matrix(m).as_dataframe()
    t, _ = via_time(W, m[:, 0], n)
    T, _ = task(W, viapoint_time=t, acceleration_weight=W.const(2), regularization_weight=W.const(1), goal_time=t, goal_weight=W.const(3))
    W.eq(T.evaluate_rollout(f, s), T.evaluate_rollout(m, s), "dataframe and matrix cost the same")
    W.raises(lambda: T.evaluate_rollout([[0.0] * (1 + 3 * d)], s), "other data is refused")


def defaults(W):
    d, n = W.params["d"], W.params["n"]
    m = rollout(W, n, d)
    T, v = task(W)
    U, _ = task(W, viapoint_weight=1.0, acceleration_weight=0.0001, regularization_weight=0.0, goal_weight=0.0, viapoint_radius=0.0)
    s = W.vec("s", 2, -3, 3)
    W.eq(T.evaluate_rollout(m, s), U.evaluate_rollout(m, s), "defaults: via-point 1, accelerations 0.0001, nothing else")


def arm(W):
    """the end effector has to pass through the via-point, joint accelerations cost"""
    j, n = W.params["j"], W.params["n"]
    m, s = rollout(W, n, j, 2 * (j + 1)), W.vec("s", 2, -3, 3)
    v, w, wa = W.vec("via", 2, -3, 3), W.pos("w", 5), W.pos("wa", 5)
    t, i = via_time(W, m[:, 0], n)
    T = W.mod(TASKS + "arm2D.TaskViapointArm2D").TaskViapointArm2D(j, W.np.array(v), viapoint_time=t, viapoint_weight=w, acceleration_weight=wa)
    c = T.evaluate_rollout(m, s)
    total(W, c, T.get_cost_labels(), 4)
    is_norm(W, c[1] / w, m[i, -2:] - v, "weighted distance of the end effector to the via-point")
    W.eq(c[2] * n * j, wa * norm2(W, m[:, 1 + 2 * j:1 + 3 * j]), "mean squared joint acceleration")
    W.raises(lambda: T.evaluate_rollout(m[:, 1:], s), "rollouts of another size are refused", AssertionError)


def throw(W):
    """distance of the landing site to the goal, minus the margin; accelerations of the hand"""
    n = W.params["n"]
    m = rollout(W, n, 2, 2 if W.choose(2) else 7)
    g, r, wa = W.var("g", -3, 3), W.var("r", 0, 2), W.var("wa", 0, 5)
    T = W.mod("demos.robot.TaskThrowBall").TaskThrowBall(g, r, W.var("floor", -1, 0), wa)
    keep = W.np.array(m)
    c = T.evaluate_rollout(m, W.vec("s", 2, -3, 3))
    W.eq(m, keep, "the rollout is not modified")
    total(W, c, T.get_cost_labels(), 2)
    x = m[n - 1, 7] - g
    if x < 0:
        x = -x
    W.eq(c[1], x - r if x > r else W.const(0), "distance of the ball's last position to the goal, minus the margin")
    W.eq(c[2] * n, wa * norm2(W, m[:, 5:7]), "mean squared acceleration of the hand")


def gains(W):
    """task with a schedule of gains"""
    d, n = W.params["d"], W.params["n"]
    m = rollout(W, n, d, 4 * d)
    v, w, wa, wg = W.vec("via", d, -3, 3), W.pos("w", 5), W.pos("wa", 5), W.pos("wg", 5)
    lo, hi = W.var("lo", 0, 2), W.var("hi", 3, 9)
    t, i = via_time(W, m[:, 0], n)
    T = W.mod(TASKS + "with_schedules.demo_bbo_of_dmps_with_gains").TaskViapointWithGains(
        W.np.array(v), t, lo, hi, viapoint_weight=w, acceleration_weight=wa, gain_weight=wg)
    c = T.evaluate_rollout(m, W.vec("s", 2, -3, 3))
    total(W, c, T.get_cost_labels(), 3)
    is_norm(W, c[1] / w, m[i, 1:1 + d] - v, "weighted distance to the via-point")
    W.eq(c[2] * n, wa * W.np.sum(W.np.abs(m[:, 1 + 2 * d:1 + 3 * d])), "mean absolute acceleration")
    W.eq(c[3] * n * hi, wg * (W.np.sum(m[:, 1 + 3 * d:1 + 4 * d]) - lo), "gains, relative to their maximum")


def point(W):
    """distance to a point, plus the norm of the sample"""
    d = W.params["d"]
    p, s, w = W.vec("p", d, -3, 3), W.vec("s", d, -3, 3), W.var("w", 0, 5)
    f = W.mod("demos.python.bbo.demo_bbo").DemoCostFunctionDistanceToPoint(W.np.array(p))
    is_norm(W, f.evaluate(s)[0], s - p, "distance to the point")
    f = W.mod("demos.python.bbo.demo_bbo_multiple_cost_components").DemoCostFunctionDistanceToPoint(W.np.array(p), w)
    c = f.evaluate(s)
    total(W, c, f.get_cost_labels(), 2)
    is_norm(W, c[1], s - p, "distance to the point")
    W.eq(c[2], w * W.np.sqrt(norm2(W, s)), "weighted norm of the sample")
