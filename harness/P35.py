"""C++ trajectories are those of the Python library, and go through files unchanged."""
import os

CPP = True
BOUNDS = ("2 to 5 arbitrary increasing times, 1 and 2 dimensions, 0 and 1 additional columns, arbitrary boundary values and via points (of 2 dimensions: position, velocity and acceleration at the via point, or where trajectories are joined, > 1/8); "
          "trajectories of arbitrary numbers with up to 3 samples written and read; numbers in files up to the rounding to 6 (C++) or 7 (Python) decimals")
OUTSIDE = "via-point times that leave fewer than two samples on one side; files written by other programs"
ASSUMPTIONS = ["the C++ sources are compiled by g++ 13 with a symbolic number type in place of double; Eigen 3.4 runs unchanged on that type",
               "a number written to a text file comes back changed by at most half a unit of its last decimal"]


def compare(W, h, tr, what, misc=True):
    ts, ys, yds, ydds, m = W.cpp("traj_get", h)
    W.eq(ts, tr.ts, what + ": times")
    for a, b, c in ((ys, tr.ys, "positions"), (yds, tr.yds, "velocities"), (ydds, tr.ydds, "accelerations")):
        W.eq(a, b.reshape(a.shape), f"{what}: {c}")
    W.true(tuple(ys.shape) == (tr.length, tr.dim), what + ": one row per sample, one column per dimension")
    if tr.dim_misc:
        W.eq(m, tr.misc.reshape(m.shape), what + ": additional columns")


def info(W, h, tr):
    n, d, dm, dur, a, b = W.cpp("traj_info", h)
    W.eq(W.arr([n, d, dm]), W.arr([tr.length, tr.dim, tr.dim_misc]), "numbers of samples and dimensions")
    W.eq(dur, tr.ts[-1] - tr.ts[0], "duration")
    W.eq(a, tr.ys[0], "first position")
    W.eq(b, tr.ys[-1], "last position")
    m = W.cpp("traj_matrix", h)
    W.eq(m, tr.as_matrix(), "matrix")
    if W.params.get("range"):
        W.eq(W.cpp("traj_range", h), tr.get_range_per_dim(), "range per dimension")


def setup(W):
    n, d = W.params["n"], W.params["d"]
    return n, d, W.increasing("t", n, -2, 4), [W.vec(s, d, -3, 3) for s in ("y0", "yd0", "ydd0", "y1", "yd1", "ydd1")]


def min_jerk(W):
    n, d, ts, q = setup(W)
    tr = W.cls("dmps.Trajectory").from_min_jerk(ts, q[0], q[3])
    h = W.cpp("min_jerk", ts, q[0], q[3])
    compare(W, h, tr, "minimum jerk")
    info(W, h, tr)


def poly(W):
    n, d, ts, q = setup(W)
    tr = W.cls("dmps.Trajectory").from_polynomial(ts, *q)
    h = W.cpp("poly", ts, *q)
    compare(W, h, tr, "polynomial")
    info(W, h, tr)
    ys, yds, ydds = W.cpp("traj_get", h)[1:4]
    for i, k in ((0, 0), (n - 1, 3)):
        for a, j in ((ys, 0), (yds, 1), (ydds, 2)):
            W.eq(a[i], q[k + j], "boundary condition")


def viapoint(W):
    n, d, ts, q = setup(W)
    if d > 1:
        q[1], q[2], q[4] = (W.vec("via" + s, d, W.q(1, 4), 3) for s in ("p", "v", "a"))
    v = W.var("tv", None, None)
    W.assume(v > ts[1])
    W.assume(v <= ts[n - 2])
    i = 1
    while bool(ts[i] < v):
        i += 1
    T = W.cls("dmps.Trajectory")
    z = W.np.zeros(d)
    h = W.cpp("viapoint", ts, q[0], W.np.concatenate([q[1], q[2], q[4]]), v, q[3])
    a = T.from_polynomial(ts[:i + 1], q[0], z, z, q[1], q[2], q[4])
    b = T.from_polynomial(ts[i:], q[1], q[2], q[4], q[3], z, z)
    got = W.cpp("traj_get", h)
    W.eq(got[0], ts, "times")
    for k, s in ((1, "ys"), (2, "yds"), (3, "ydds")):
        W.eq(got[k], W.np.concatenate([getattr(a, s), getattr(b, s)[1:]], axis=0), "via point: " + s)


def arbitrary(W, n, d, m, p=""):
    ts = W.increasing(p + "t", n, -2, 4)
    A = [W.mat(p + s, n, d, -3, 3) for s in ("y", "yd", "ydd")]
    M = W.mat(p + "m", n, m, -3, 3) if m else None
    tr = W.cls("dmps.Trajectory")(ts, *A, *([M] if m else []))
    return tr, W.cpp("traj", ts, *A, *([M] if m else []))


def properties(W):
    tr, h = arbitrary(W, W.params["n"], W.params["d"], W.params["m"])
    compare(W, h, tr, "as given")
    info(W, h, tr)


def misc(W):
    n, d = W.params["n"], W.params["d"]
    tr, h = arbitrary(W, n, d, W.params["m"])
    k = W.params["k"]
    M = W.mat("new", n, k, -3, 3)
    W.cpp("traj_misc", h, M)
    W.eq(W.cpp("traj_get", h)[4], M, "additional columns that were set")
    W.eq(W.cpp("traj_matrix", h), W.np.concatenate([tr.as_matrix()[:, :1 + 3 * d], M], axis=1), "matrix with them")
    R = W.mat("row", 1, k, -3, 3)
    if n > 1:
        W.cpp("traj_misc", h, R)
        W.eq(W.cpp("traj_get", h)[4], W.np.concatenate([R] * n, axis=0), "the same values for all samples")


def append(W):
    d, m = W.params["d"], W.params["m"]
    n1, n2 = W.params["n"]
    a, h1 = arbitrary(W, n1, d, m, "a")
    if d > 1:
        for x in (a.ys, a.yds, a.ydds):
            for i in range(d):
                W.assume(x[n1 - 1, i] > W.q(1, 8))
    ts = W.increasing("bt", n2, start=a.ts[n1 - 1])
    B = []
    for s, first in (("y", a.ys), ("yd", a.yds), ("ydd", a.ydds)):
        B.append(W.np.concatenate([first[n1 - 1:], W.mat("b" + s, n2 - 1, d, -3, 3)], axis=0))
    M = [W.mat("bm", n2, m, -3, 3)] if m else []
    h2 = W.cpp("traj", ts, *B, *M)
    W.cpp("traj_append", h1, h2)
    got = W.cpp("traj_get", h1)
    W.eq(got[0], W.np.concatenate([a.ts, ts[1:]]), "times of both")
    for i, (x, y) in enumerate(zip((a.ys, a.yds, a.ydds), B)):
        W.eq(got[1 + i], W.np.concatenate([x, y[1:]], axis=0), "samples of both, the common one once")
    if m:
        W.eq(got[4], W.np.concatenate([a.misc, M[0][1:]], axis=0), "additional columns of both")
    two = W.cpp("traj_get", h2)
    W.eq(two[0], ts, "the appended trajectory is unchanged")
    W.eq(two[1], B[0], "the appended trajectory is unchanged")


def near(W, a, b, what):
    W.true(tuple(a.shape) == tuple(b.shape), what + ": sizes")
    a, b = a.reshape(-1), b.reshape(-1)
    for i in range(a.size):
        W.le(a[i] - b[i], W.q(11, 10 ** 7), what)
        W.le(b[i] - a[i], W.q(11, 10 ** 7), what)


def files(W):
    n, d, m = W.params["n"], W.params["d"], W.params["m"]
    T = W.cls("dmps.Trajectory")
    tr, h = arbitrary(W, n, d, m)
    how = W.params["how"]
    dr = W.tmpdir() + "/new"
    f = dr + "/t.txt"
    if how == "python_cpp":
        os.mkdir(dr)
        tr.savetxt(f)
    elif W.choose(2):
        W.eq(W.cpp("traj_save", h, dr, "t.txt", "0"), W.q(1), "saved in a new directory")
    else:
        os.mkdir(dr)
        W.eq(W.cpp("traj_save", h, f, "0"), W.q(1), "saved")
    W.true(os.path.exists(f), "the file exists")
    if how == "cpp_python":
        r = T.loadtxt(f, n_dims_misc=m)
        near(W, r.as_matrix(), tr.as_matrix(), "written by C++, read by Python")
    else:
        g = W.cpp("traj_read", f, str(m))
        near(W, W.cpp("traj_matrix", g), tr.as_matrix(), "written and read")
        near(W, W.cpp("traj_get", g)[1], tr.ys, "written and read: positions")
        near(W, W.cpp("traj_get", g)[2], tr.yds, "written and read: velocities")


def overwrite(W):
    """existing files are only replaced when that is asked for"""
    d = W.tmpdir()
    A, B = W.mat("a", 2, 2, -3, 3), W.mat("b", 1, 3, -3, 3)
    form = lambda: ([d, "m.txt"], [d + "/m.txt"])[W.choose(2)]
    W.eq(W.cpp("save_matrix", A, *form(), "0"), W.q(1), "a new file is written")
    W.eq(W.cpp("save_matrix", B, *form(), "0"), W.q(0), "an existing file is not overwritten")
    ok, M = W.cpp("load_matrix", d + "/m.txt")
    W.eq(ok, W.q(1), "read")
    near(W, M, A, "an existing file stays as it is")
    W.eq(W.cpp("save_matrix", B, *form(), "1"), W.q(1), "an existing file is overwritten if asked for")
    near(W, W.cpp("load_matrix", d + "/m.txt")[1], B, "the new contents")
    ok, M = W.cpp("load_matrix", d + "/other.txt")
    W.eq(ok, W.q(0), "a file that does not exist cannot be read")


def cases(tier):
    out = []
    for d in (1, 2):
        for n in (2, 3, 5):
            out.append(dict(name=f"minjerk-n{n}-d{d}", fn="min_jerk", params=dict(n=n, d=d)))
            out.append(dict(name=f"poly-n{n}-d{d}", fn="poly", params=dict(n=n, d=d)))
        out.append(dict(name=f"viapoint-d{d}", fn="viapoint", params=dict(n=4 if d == 2 else 5, d=d)))
        for m in (0, 1):
            out.append(dict(name=f"properties-d{d}-m{m}", fn="properties", params=dict(n=2, d=d, m=m, range=d == 1)))
            for n in ((1, 2) if tier == "quick" else (1, 2, 3)):
                for how in ("cpp_cpp", "cpp_python", "python_cpp"):
                    out.append(dict(name=f"{how}-n{n}-d{d}-m{m}", fn="files", params=dict(how=how, n=n, d=d, m=m)))
        out.append(dict(name=f"properties3-d{d}", fn="properties", params=dict(n=3, d=d, m=2, range=True)))
        out.append(dict(name=f"misc-d{d}", fn="misc", params=dict(n=3, d=d, m=d - 1, k=2)))
        out.append(dict(name=f"append-d{d}", fn="append", params=dict(n=(2, 2) if d == 2 else (2, 3), d=d, m=d - 1)))
    out.append(dict(name="overwrite", fn="overwrite", params={}))
    return out
