"""P38: the example simulators (2D arm, ball throwing in Python and C++, force field) follow their equations."""
from harness.P30 import fa
from harness.dm import build, setup

CPP = True
BOUNDS = ("arms with 1-3 joints, 1-2 configurations, arbitrary angles and link lengths; arm rollouts with 2-3 samples in time of several DMP types; "
          "ball: 3 steps (C++: 5 of arbitrary sizes) around and after the release, arbitrary movements of the hand, arbitrary floor; force "
          "field: 3 samples in time, arbitrary strength, gains and movements")
OUTSIDE = "releases of the ball that depend on the rounding of the time"
ASSUMPTIONS = ["sine and cosine are arbitrary functions with sin^2 + cos^2 = 1"]
DEMO = "demos.python.bbo_of_dmps."


def cases(tier):
    out = []
    for j in (1, 2, 3):
        out.append(dict(name=f"links_{j}", fn="links", params=dict(j=j, n=2 if j < 3 else 1)))
    for t, s in (("KULVICIUS_2012_JOINING", "NO_SCALING"), ("IJSPEERT_2002_MOVEMENT", "NO_SCALING")):
        for given in (0, 1):
            out.append(dict(name=f"arm_{t}_lengths{given}", fn="arm", params=dict(t=t, s=s, d=2, given=given, sel=["w"], n=1)))
    for steps in (1, 4):
        out.append(dict(name=f"throw_python_{steps}", fn="throw_python", params=dict(extra=steps)))
    for n in (3, 5):
        out.append(dict(name=f"throw_cpp_{n}", fn="throw_cpp", params=dict(n=n)))
    out.append(dict(name="throw_cpp_twice", fn="throw_twice", params=dict(n=3)))
    for d in (1, 2):
        out.append(dict(name=f"field_{d}", fn="field", params=dict(d=d, n=3)))
    return out


def check_links(W, links, angles, lengths):
    n, j = angles.shape
    W.true(links.shape == (n, 2 * (j + 1)), "x and y of the base and of the end of every link")
    for t in range(n):
        W.eq(links[t, :2], W.np.zeros(2), "the base stays at the origin")
        a = W.const(0)
        for i in range(j):
            a = a + angles[t, i]
            W.eq(links[t, 2 * i + 2] - links[t, 2 * i], lengths[i] * W.np.cos(a), "every link points in the direction of the sum of the angles (x)")
            W.eq(links[t, 2 * i + 3] - links[t, 2 * i + 1], lengths[i] * W.np.sin(a), "every link points in the direction of the sum of the angles (y)")


def links(W):
    j, n = W.params["j"], W.params["n"]
    A, L = W.mat("a", n, j, -3, 3), W.vec("l", j, 0, 2)
    a, l = W.np.array(A), W.np.array(L)
    f = W.mod(DEMO + "arm2D.TaskSolverDmpArm2D").TaskSolverDmpArm2D.angles_to_link_positions
    check_links(W, f(a, l), A, L)
    W.eq(a, A, "the angles are not modified")
    W.eq(l, L, "the lengths are not modified")


def arm(W):
    """rollouts: movement of the joints, and positions of the links"""
    d = W.params["d"]
    P = setup(W, d, W.params["t"], W.params["s"])
    dmp, same = build(W, P, fa(W, d)), build(W, P, fa(W, d))
    dmp.set_selected_param_names("w"), same.set_selected_param_names("w")
    L = W.vec("l", d, 0, 2, strict_lo=True) if W.params["given"] else W.np.full((d,), W.q(1, d))
    dt = P["tau"] / 2
    C = W.mod(DEMO + "arm2D.TaskSolverDmpArm2D").TaskSolverDmpArm2D
    s = C(dmp, dt, W.q(5, 4), W.np.array(L)) if W.params["given"] else C(dmp, dt, W.q(5, 4))
    v = W.vec("sample", dmp.get_param_vector_size(), -3, 3)
    m = s.perform_rollout(v)
    same.set_param_vector(v)
    n = 3
    ts = W.np.linspace(0, P["tau"] * W.q(5, 4), n)
    xs, xds = same.analytical_solution(ts)[:2]
    tr = same.states_as_trajectory(ts, xs, xds)
    W.true(m.shape == (n, 1 + 3 * d + 2 * (d + 1)), "time, joints, links")
    W.eq(m[:, :1 + 3 * d], tr.as_matrix(), "the joints move as the DMP with the sample as its parameters")
    check_links(W, m[:, 1 + 3 * d:], tr.ys, L)


class Hand:
    """stands for a DMP; an arbitrary movement"""

    def __init__(self, W, tau, n, d):
        self.W, self.tau, self.d, self.i = W, tau, d, 0
        self.Y = [[W.vec(f"{c}{i}", d, -3, 3) for c in ("y", "yd", "ydd")] for i in range(n)]
        self.dts = []

    def dim_dmp(self):
        return self.d

    def integrate_start(self):
        self.i = 0
        return self.W.arr([0]), self.W.arr([0])

    def integrate_step(self, dt, x):
        self.dts.append(dt)
        self.W.eq(x, self.W.arr([self.i]), "every step starts where the last one ended")
        self.i += 1
        return self.W.arr([self.i]), self.W.arr([self.i])

    def states_as_pos_vel_acc(self, x, xd):
        return tuple(self.W.np.array(v) for v in self.Y[self.i])


def fly(W, ball, v, dt, floor):
    """one step of the ball through the air; (position, velocity, on the floor)"""
    v = v + dt * W.arr([W.const(0), W.q(-981, 100)])
    p = ball + dt * v
    down = bool(p[1] < floor)
    if down:
        p = W.arr([p[0], floor])
    return p, v, down


def throw_python(W):
    k = W.params["extra"]
    n = 62 + k
    h = Hand(W, W.q(2 * n - 1, 300), n, 2)      # n steps of 0.01 fit in 1.5 times the duration
    floor = W.var("floor", -3, 0)
    m = W.mod("demos.robot.TaskThrowBall").run_python_simulation(h, floor)
    W.true(m.shape == (n, 9), "time, hand, ball")
    dt = W.q(1, 100)
    W.eq(m[:, 0], W.arr([i * dt for i in range(n)]), "times")
    for i in range(n):
        for c in range(3):
            W.eq(m[i, 1 + 2 * c:3 + 2 * c], h.Y[i][c], "the hand moves as the DMP")
        if i <= 61:
            W.eq(m[i, 7:9], h.Y[i][0], "until its release the ball moves with the hand")
    for x in h.dts:
        W.eq(x, dt, "duration of a step")
    p, v, down = h.Y[61][0], h.Y[61][1], False
    for i in range(62, n):
        if not down:
            p, v, down = fly(W, p, v, dt, floor)
        W.eq(m[i, 7:9], p, "the ball flies with the velocity of the hand at the release, until it hits the floor")


def sim(W, tag, n):
    dts = W.arr([W.var(f"{tag}dt{i}", W.q(1, 10), W.q(1, 2)) for i in range(n)])
    Y = W.mat(tag + "y", n, 6, -3, 3)
    s = W.const(0)
    for i in range(n):
        s = s + dts[i]
        W.assume(s > W.q(61, 100)) if bool(s > W.q(3, 5)) else W.assume(s < W.q(59, 100))
    return dts, Y


def check_cpp(W, dts, Y, o):
    n = Y.shape[0]
    W.true(o.shape == (n, 14), "time, hand, ball, whether the ball is in the hand")
    floor, t = W.q(-3, 10), W.const(0)
    held = True
    for i in range(n):
        W.eq(o[i, 1:7], Y[i], "the hand moves as desired")
        if held:
            b, v, a = Y[i, 0:2], Y[i, 2:4], Y[i, 4:6]
            held = not bool(t > W.q(3, 5))
        else:
            b, v, down = fly(W, b, v, dts[i], floor)
            a = W.arr([W.const(0), W.q(-981, 100)])
            if down:
                v, a = W.np.zeros(2), W.np.zeros(2)
        t = t + dts[i]
        W.eq(o[i, 7:9], b, "position of the ball: with the hand, through the air, on the floor")
        W.eq(o[i, 9:11], v, "velocity of the ball")
        W.eq(o[i, 11:13], a, "acceleration of the ball")
        W.eq(o[i, 13], W.const(1 if held else 0), "whether the ball is in the hand")
        W.eq(o[i, 0], t, "time")


def throw_cpp(W):
    dts, Y = sim(W, "", W.params["n"])
    check_cpp(W, dts, Y, W.cpp("throw_ball", dts, Y))


def throw_twice(W):
    a, b = sim(W, "a", 2), sim(W, "b", W.params["n"])
    W.cpp("throw_ball", *a)
    check_cpp(W, *b, W.cpp("throw_ball", *b))


class Sched(Hand):
    def __init__(self, W, n, d):
        Hand.__init__(self, W, None, n, d)
        self.dim_y = d
        self.S = [W.vec(f"s{i}", d, 0, 9, strict_lo=True) for i in range(n)]

    def integrate_start_sched(self):
        return (*self.integrate_start(), self.W.np.array(self.S[0]))

    def integrate_step_sched(self, dt, x):
        return (*self.integrate_step(dt, x), self.W.np.array(self.S[self.i]))


def field(W):
    n, d = W.params["n"], W.params["d"]
    h = Sched(W, n, d)
    T, f, tm = W.pos("T", 5), W.var("strength", -9, 9), W.pos("tmax", 3)
    r = W.mod(DEMO + "with_schedules.force_field_simulator").perform_rollout(h, T, n, f, tm)
    dt = T / (n - 1)
    for x in h.dts:
        W.eq(x, dt, "duration of a step")
    W.eq(r["ts"], W.arr([i * dt for i in range(n)]), "times")
    for i in range(n):
        for c, v in enumerate(("ys", "yds", "ydds")):
            W.eq(r[v + "_des"][i], h.Y[i][c], "desired movement: that of the DMP")
            if i == 0:
                W.eq(r[v + "_cur"][i], h.Y[i][c], "starts as desired")
        W.eq(r["schedules"][i], h.S[i], "gains: the schedules of the DMP")
        if i == 0:
            continue
        y, yd = r["ys_cur"][i - 1], r["yds_cur"][i - 1]
        t = i * dt
        F = f * W.np.exp(-(t - tm) * (t - tm) / (tm / 10))
        W.eq(r["fields"][i, 0], F, "the field is Gaussian in time")
        a = h.Y[i][2] - h.S[i] * (y - h.Y[i][0]) - W.np.sqrt(h.S[i]) * (yd - h.Y[i][1]) + F
        W.eq(r["ydds_cur"][i], a, "acceleration: desired, controller and field")
        W.eq(r["yds_cur"][i], yd + dt * a, "velocity")
        W.eq(r["ys_cur"][i], y + dt * (yd + dt * a), "position")
