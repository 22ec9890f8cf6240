"""shared by the DMP harnesses: constructors and stand-ins for function approximators"""

TYPES = ("IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013", "SCT23", "SCT23_NO_SCALING",
         "SCT23_DAMPING", "2022_NO_SCALING_DAMPING")
SCALINGS = ("NO_SCALING", "G_MINUS_Y0_SCALING", "AMPLITUDE_SCALING")


class FA:
    """stand-in for a trained function approximator: an arbitrary function of the phase"""

    def __init__(self, W, name, trained=True, n_params=0):
        self.W, self.name, self.on = W, name, trained
        self.table = None
        self.values = None
        self.names = None
        self.n = n_params

    def __deepcopy__(self, memo):
        o = FA(self.W, self.name, self.on, self.n)
        o.table, o.names = self.table, self.names
        o.values = None if self.values is None else self.W.np.array(self.values)
        return o

    def f(self, p):
        if self.table is not None:
            for x, y in self.table:
                if x is p or bool(x == p):
                    return y
        return self.W.uf(self.name, p)

    def predict(self, inputs):
        W = self.W
        x = W.np.array(inputs).reshape(-1)
        return W.arr([self.f(x[i]) for i in range(x.size)])

    def is_trained(self):
        return self.on

    def train(self, inputs, targets, **kw):
        W = self.W
        self.inputs, self.targets = W.np.array(inputs), W.np.array(targets)
        self.kw = kw
        self.on = True
        x, y = self.inputs.reshape(-1), self.targets.reshape(-1)
        self.table = [(x[i], y[i]) for i in range(x.size)]

    # ------------------------------------------------ parameters
    def set_selected_param_names(self, names):
        self.names = list(names) if names is not None else []

    def get_param_vector_size(self):
        return self.n if self.names else 0

    def get_param_vector(self):
        return self.W.np.array(self.values) if self.names else self.W.np.zeros(0)

    def set_param_vector(self, values):
        if self.names:
            self.values = self.W.np.array(values)


def D(W):
    return W.cls("dmps.Dmp")


def fas(W, d, trained=True):
    return [FA(W, f"F{i}", trained) for i in range(d)]


def setup(W, d, typ, scal="NO_SCALING", p="", **k):
    """symbolic parameters of a DMP; y_attr != y_init where something divides by it"""
    P = dict(d=d, typ=typ, scal=scal, tau=W.pos(p + "tau", 3), y0=W.vec(p + "y0", d, -3, 3))
    P["g"] = W.vec(p + "g", d, -3, 3)
    P["kw"] = dict(k)
    if scal == "AMPLITUDE_SCALING":
        P["amp"] = W.vec(p + "amp", d, 0, 3, strict_lo=True)
    if typ == "2022_NO_SCALING_DAMPING" or typ == "SCT23_NO_SCALING":
        for i in range(d):
            W.assume(P["g"][i] != P["y0"][i])
    return P


def build(W, P, fa="stub", **over):
    P = dict(P, **over)
    kw = dict(P["kw"], dmp_type=P["typ"], forcing_term_scaling=P["scal"])
    if "amp" in P:
        kw["scaling_amplitudes"] = P["amp"]
    f = fas(W, P["d"]) if fa == "stub" else fa
    return D(W)(P["tau"], W.np.array(P["y0"]), W.np.array(P["g"]), f, **kw)


def factor(W, P):
    """what the forcing term is multiplied with"""
    if P["scal"] == "G_MINUS_Y0_SCALING":
        return P["g"] - P["y0"]
    if P["scal"] == "AMPLITUDE_SCALING":
        return P["amp"]
    return W.np.ones(P["d"])


def state(W, P, dmp, p="s"):
    """an arbitrary state of the whole DMP; phase and gating in [0,1]"""
    d = P["d"]
    x = W.np.zeros(dmp.dim_x)
    x[dmp.SPRING] = W.vec(p + "spr", 2 * d, -3, 3)
    if "SCT23" in P["typ"] or "2022" in P["typ"]:
        lam = W.vec(p + "lam", d, 0, 1)
        x[dmp.GOAL] = P["y0"] + lam * (P["g"] - P["y0"]) if "NO_SCALING" in P["typ"] else lam
    else:
        x[dmp.GOAL] = W.vec(p + "goal", d, -3, 3)
    x[dmp.PHASE] = W.var(p + "phase", 0, 1, strict_lo=True, strict_hi=True)
    x[dmp.GATING] = W.var(p + "gating", 0, 1, strict_lo=True, strict_hi=True)
    x[dmp.DAMPING] = W.vec(p + "damp", d, 0, 20, strict_lo=True) if "DAMPING" in P["typ"] else dmp.differential_equation(x)[dmp.DAMPING] + 20
    return x


def real_goal(W, P, xg):
    """position of the (delayed) goal for a goal-system state"""
    if ("SCT23" in P["typ"] or "2022" in P["typ"]) and "NO_SCALING" not in P["typ"]:
        return P["y0"] + xg * (P["g"] - P["y0"])
    return xg
