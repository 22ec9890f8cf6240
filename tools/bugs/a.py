plant("integrate-dt-fixed", "P03", [("dmpbbo/dynamicalsystems/DynamicalSystem.py",
"""        if int_method == "Runge-Kutta":
            for ii in range(1, n_time_steps):
                dt = ts[ii] - ts[ii - 1]
""", """        if int_method == "Runge-Kutta":
            dt = (ts[-1] - ts[0]) / max(n_time_steps - 1, 1)
            for ii in range(1, n_time_steps):
""")], '''
from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
s = ExponentialSystem(1.0, np.array([1.0]), np.array([0.0]), 2.0)
ts = np.array([0.0, 0.05, 0.2, 0.25, 0.5])
xs, _ = s.integrate(ts)
ana, _ = s.analytical_solution(ts)
check(np.allclose(xs, ana, atol=1e-3), "integration over uneven times")
''', "a sequence of times with uneven steps, Runge-Kutta", "integrate uses the mean step instead of the step of each interval")

plant("richards-exponent", "P01", [("dmpbbo/dynamicalsystems/RichardsSystem.py",
"np.power(1 + q * exp_term, 1 + 1 / v))", "np.power(1 + q * exp_term, 1 + v))")], '''
from dmpbbo.dynamicalsystems.RichardsSystem import RichardsSystem
for v in (1.0, 2.0):
    s = RichardsSystem(1.0, np.array([1.0]), np.array([3.0]), 0.3, 8.0, v)
    ts = np.linspace(0, 1, 20)
    xs, xds = s.analytical_solution(ts)
    for i in range(20):
        check(np.allclose(xds[i], s.differential_equation(xs[i])), f"rates with v={v}")
''', "a Richards system whose v is neither 1 (the default for goals)", "rates of the analytical solution are wrong for v != 1")

plant("dmp-goal-init-stale", "P16", [("dmpbbo/dmps/Dmp.py",
"""        if self._goal_system is not None:
            if not self.goal_system_requires_scaling:
                self._goal_system.y_init = y_init_new
""", """        if self._goal_system is not None:
            if not (self.goal_system_requires_scaling or self._ts_train is not None):
                self._goal_system.y_init = y_init_new
""")], '''
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.Trajectory import Trajectory
a, b = np.array([0.0]), np.array([1.0])
ts = np.linspace(0, 1, 30)
t = Trajectory.from_min_jerk(ts, a, b)
d1 = Dmp.from_traj(t, None)
d2 = Dmp(1.0, a + 0.5, b, None)
d1.y_init = a + 0.5
check(np.allclose(d1.analytical_solution(ts)[0], d2.analytical_solution(ts)[0]), "new start after training")
''', "setting a new initial state on a DMP that was trained before", "the delayed goal keeps starting at the old initial state")

plant("dmp-damping-tau-train", "P14", [("dmpbbo/dmps/Dmp.py",
"""                + damping_coefficient * tau * trajectory.yds
""", """                + damping_coefficient * (tau * trajectory.yds if not self._damping_system else trajectory.yds)
""")], '''
from dmpbbo.dmps.Dmp import Dmp
from dmpbbo.dmps.Trajectory import Trajectory
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN as R
ts = np.linspace(0, 3, 200)
t = Trajectory.from_min_jerk(ts, np.array([0.0]), np.array([1.0]))
d = Dmp.from_traj(t, [R(30, 0.8)], dmp_type="SCT23_DAMPING")
ys = d.analytical_solution(ts)[0][:, 0]
check(np.max(np.abs(ys - t.ys[:, 0])) < 0.03, "demonstration is reproduced")
''', "a DMP type with a damping system and a demonstration whose duration is not 1", "the training targets are wrong, so the demonstration is not reproduced")

plant("lwr-weights-normalized-first", "P08", [("dmpbbo/functionapproximators/FunctionApproximatorLWR.py",
"""            wls_model_params = fa_lws.train(inputs, targets, weights=weights)
""", """            if n_dims > 1:
                weights = np.sqrt(weights)
            wls_model_params = fa_lws.train(inputs, targets, weights=weights)
""")], '''
from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR as L
from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS as S
rng = np.random.default_rng(3)
x = rng.uniform(size=(40, 2)); y = np.sin(3 * x[:, 0]) + x[:, 1] ** 2
f = L([2, 2]); p = f.train(x, y)
act = f._activations(x, p)
for i in range(4):
    w = S(True); q = w.train(x, y, weights=act[:, i])
    check(np.allclose(q["slope"], p["slopes"][i], atol=1e-6), "local line is the locally weighted fit")
''', "two-dimensional inputs", "locally weighted regressions use the square root of the weights for inputs with more than one dimension")


plant("sched-one-bound", "P18", [("dmpbbo/dmps/DmpWithSchedules.py",
"if self.min_schedules is None and self.max_schedules is None:", "if self.min_schedules is None or self.max_schedules is None:")], '''
from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules as D
class F:
    def is_trained(self): return True
    def predict(self, x): return 10 * np.ones(x.size)
d = D(1.0, np.zeros(1), np.ones(1), None, [F()], max_schedules=2.0)
check(np.all(d.analytical_solution_sched(np.linspace(0, 1, 5))[2] <= 2), "upper bound")
''', "only one of the two bounds is given", "a single bound on the schedules is not enforced")

plant("sigmoid-xinit-cache", "P04", [("dmpbbo/dynamicalsystems/SigmoidSystem.py",
"""        self._x_init = new_x_init
        self._Ks_cached = None  # Forces recomputing Ks
""", """        self._x_init = new_x_init
""")], '''
from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
a = SigmoidSystem(1.0, np.array([1.0]), -20.0, 0.8)
ts = np.linspace(0, 1, 10)
a.analytical_solution(ts)
a.x_init = np.array([2.0])
b = SigmoidSystem(1.0, np.array([2.0]), -20.0, 0.8)
check(np.allclose(a.analytical_solution(ts)[0], b.analytical_solution(ts)[0]), "new initial state after evaluating")
''', "setting the state vector of a sigmoid system after it was evaluated", "a cached constant of the old initial state is used")

plant("gauss-far-inputs", "P07", [("dmpbbo/functionapproximators/basis_functions.py",
"if sum_kernel_activations == 0.0:", "if sum_kernel_activations < 1e-6:")], '''
from dmpbbo.functionapproximators.basis_functions import Gaussian
c = np.array([[0.0], [1.0]]); w = np.array([[0.2], [0.2]])
a = Gaussian.activations(np.array([[2.5]]), centers=c, widths=w, normalized=True)
r = np.exp(-0.5 * ((2.5 - c) / w) ** 2).reshape(-1)
check(np.allclose(a[0], r / r.sum()), "far from the centers")
''', "inputs far away from all centers", "normalised activations become uniform although they are not zero")

plant("fa-param-order", "P10", [("dmpbbo/functionapproximators/FunctionApproximator.py",
"""            values.extend(self._model_params[label].flatten())
        return""", """            values.extend(self._model_params[label].T.flatten())
        return""")], '''
from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN as R
rng = np.random.default_rng(0)
x = rng.uniform(size=(30, 2)); y = x[:, 0]
f = R([2, 3]); f.train(x, y)
f.set_selected_param_names(["centers", "weights"])
v = f.get_param_vector(); p = f.predict(x)
f.set_param_vector(v)
check(np.allclose(f.predict(x), p), "set(get()) changes nothing")
''', "selected parameters that are matrices, i.e. centers or widths of multi-dimensional inputs",
"reading and writing the parameter vector use different orders for matrices")

plant("dmp-damping-lag", "P13", [("dmpbbo/dmps/Dmp.py",
"local_spring_system.damping_coefficient = xs[tt, self.DAMPING]", "local_spring_system.damping_coefficient = xs[tt - 1, self.DAMPING]")], '''
from dmpbbo.dmps.Dmp import Dmp
d = Dmp(1.0, np.zeros(2), np.ones(2), None, dmp_type="SCT23_DAMPING")
xs, xds, _, _ = d.analytical_solution(np.linspace(0, 0.9, 10))
for i in range(10):
    check(np.allclose(d.differential_equation(xs[i]), xds[i]), "rates at states of the analytical solution")
''', "a DMP type with a damping system", "the damping of the previous time step is used")

plant("dmp-prediction-cache", "P17", [("dmpbbo/dmps/Dmp.py",
"""        n_time_steps = phase_state.size
        fa_output = np.zeros([n_time_steps, self.dim_dmp()])
""", """        n_time_steps = phase_state.size
        cached = self.__dict__.get("_fa_cache", None)
        if cached is not None and np.array_equal(cached[0], phase_state):
            return cached[1]
        fa_output = np.zeros([n_time_steps, self.dim_dmp()])
"""), ("dmpbbo/dmps/Dmp.py", """                    fa_output[:, i_fa] = self._function_approximators[i_fa].predict(phase_state)
        return fa_output
""", """                    fa_output[:, i_fa] = self._function_approximators[i_fa].predict(phase_state)
            self._fa_cache = (np.array(phase_state), fa_output)
        return fa_output
"""), ("dmpbbo/dmps/Dmp.py", """                    fa.set_param_vector(cur_values)
""", """                    fa.set_param_vector(cur_values)
                    self._fa_cache = None
"""), ("dmpbbo/dmps/Dmp.py", """        # Set tau, initial_state and attractor_state from the trajectory
""", """        self._fa_cache = None
        # Set tau, initial_state and attractor_state from the trajectory
""")], '''
from dmpbbo.dmps.Dmp import Dmp
class F:
    def is_trained(self): return True
    def predict(self, x): return 50 * np.ones(x.size)
ts = np.linspace(0, 1, 20)
d = Dmp(1.0, np.zeros(1), np.ones(1), [F()])
d.analytical_solution(ts, suppress_forcing_term=True)
a = d.analytical_solution(ts)[0]
b = Dmp(1.0, np.zeros(1), np.ones(1), [F()]).analytical_solution(ts)[0]
check(np.allclose(a, b), "solution after one with a suppressed forcing term")
''', "a solution with suppressed forcing term before a normal one at the same times",
"a cache of predictions is zeroed by solving with the forcing term suppressed")

plant("dmp-goal-tau", "P15", [("dmpbbo/dmps/Dmp.py",
"""        if self._goal_system is not None:
            self._goal_system.tau *= tau_scale
""", """        if self._goal_system is not None and not self.goal_system_requires_scaling:
            self._goal_system.tau *= tau_scale
""")], '''
from dmpbbo.dmps.Dmp import Dmp
d = Dmp(1.0, np.zeros(1), np.ones(1), None, dmp_type="SCT23")
d.tau = 2.0
e = Dmp(2.0, np.zeros(1), np.ones(1), None, dmp_type="SCT23")
ts = np.linspace(0, 2, 50)
check(np.allclose(d.analytical_solution(ts)[0], e.analytical_solution(ts)[0]), "time constant set later")
''', "setting the time constant later on a DMP whose goal system is normalised", "the delayed goal keeps its old speed")

plant("gpr-lengths", "P08", [("dmpbbo/functionapproximators/FunctionApproximatorGPR.py",
"""np.full(inputs.shape, meta_params["lengths"])""", """np.full(inputs.shape, np.mean(meta_params["lengths"]))""")], '''
from dmpbbo.functionapproximators.FunctionApproximatorGPR import FunctionApproximatorGPR as G
x = np.array([[0.0, 0.0], [1.0, 0.5], [0.3, 1.0]]); y = np.array([1.0, 2.0, -1.0])
L = np.array([0.4, 1.5])
g = G(2.0, L); g.train(x, y)
k = lambda a, b: 2.0 * np.exp(-0.5 * (((a[:, None] - b[None]) / L) ** 2).sum(axis=2))
q = np.array([[0.6, 0.2]])
check(np.allclose(g.predict(q), k(q, x) @ np.linalg.solve(k(x, x), y)), "posterior mean with one length per dimension")
''', "different length scales for the input dimensions", "the average length scale is used for all dimensions")
