"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
DS = "dmpbbo/dynamicalsystems/"
FA = "dmpbbo/functionapproximators/"
SYS = [DS + f"{n}System.py" for n in ("Exponential", "Sigmoid", "SpringDamper", "Richards", "Time")] + [DS + "DynamicalSystem.py"]
FAS = [FA + f"FunctionApproximator{n}.py" for n in ("", "WLS", "RBFN", "LWR", "GPR")]
UNIT = ("The only stable test runs scripts on a few fixed examples and checks that nothing is raised; "
        "no expected value is compared, so ")
PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=(), extra=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=UNIT + why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   observe_at=list(observe), hook_needed=None)))


P("P01", "Analytical solutions solve the differential equation",
  "For every exponential, sigmoid, spring-damper (critically damped), Richards and time system, the states of the analytical "
  "solution start at the initial state, the rates it returns are the time derivative of its states, and they equal the "
  "system's own differential equation evaluated at those states. This holds for every dimension, every positive time "
  "constant, every initial state and attractor, and scalar, array or list parameters.",
  ["inputs", "configurations"], "all times >= 0, all parameters in their domain, all initial states and attractors",
  "agreement of the two ways of solving a system for all parameter values is never examined.",
  SYS, [("differential_equation / analytical_solution of each system", DS)], ["analytical_solution", "differential_equation"])
P("P02", "Attractors are the equilibria, and the systems converge to them",
  "The rate of change of a system is zero at its attractor state at rest and nowhere else in its domain, and also at an "
  "attractor state that was set later. Exponential, Richards, sigmoid (decaying) and critically damped spring-damper "
  "solutions approach the attractor monotonically without overshoot; a spring-damper system loses mechanical energy at "
  "exactly the rate the damper dissipates; time systems count linearly from 0 to 1 (or 1 to 0) in the time constant and stay there.",
  ["inputs", "configurations"], "all states, times, time constants and positive system parameters",
  "stability and convergence are statements about all states and all times.",
  SYS, [("differential_equation / analytical_solution / y_attr setter", DS)], ["differential_equation", "analytical_solution"])
P("P03", "Numerical integration implements Euler and Runge-Kutta steps",
  "An Euler step moves the state by dt times the rate of change, the Runge-Kutta step is the classical fourth-order formula "
  "and returns the rate at the new state. Integrating over a sequence of times performs exactly one such step per "
  "interval with that interval's length, starting at the initial state, and the chosen method is the one used.",
  ["inputs", "schedules"], "all right-hand sides (uninterpreted function), states, step sizes and increasing time sequences up to the bound",
  "step formulas for arbitrary dynamics and uneven time steps are not looked at.",
  [DS + "DynamicalSystem.py"], [("integrate_step_euler, integrate_step_runge_kutta, integrate, integrate_start", DS + "DynamicalSystem.py")],
  ["integrate", "integrate_step"])
P("P04", "A dynamical system's behaviour depends on its settings, not its history",
  "After any sequence of setting time constant, initial state or attractor, evaluating, solving, integrating and decoupling "
  "parameters, a system behaves exactly like one newly constructed with the current settings. Evaluating a system never "
  "changes it, its arguments or the arrays it was constructed from, and repeating a call repeats its result. "
  "Expanding scalar parameters to arrays does not change the behaviour.",
  ["histories", "inputs"], "all operation sequences up to the bound, with arbitrary values",
  "operation histories are not explored.",
  SYS, [("property setters, decouple_parameters, integrate_start", DS)], ["differential_equation", "analytical_solution", "integrate_start"])
P("P05", "The time constant scales time, shape parameters place the inflection",
  "For exponential, spring-damper, Richards and time systems two systems that differ only in the time constant pass through "
  "the same states at the same fraction of the time constant, with rates inversely proportional to it, whether it was given "
  "at construction or set later. Sigmoid and Richards systems have their extremal rate at the inflection ratio times the "
  "time constant, and a gating system starts at 1 and has the requested value at the time constant.",
  ["inputs", "configurations"], "all pairs of time constants, times, states and parameters",
  "temporal scaling relates two runs at arbitrary speeds and is never compared.",
  SYS, [("tau setters, for_gating, inflection ratio computations", DS)], ["analytical_solution", "differential_equation"])
P("P06", "Least-squares regression solves its normal equations",
  "Training the weighted least-squares approximator yields the slope and offset that solve the weighted, regularised normal "
  "equations for the given data, weights and regularization, with an offset exactly when asked for, and predictions are that "
  "linear function. Data on a line is recovered exactly, the order of samples and (without regularization) the scale of the weights do not matter, and the caller's data is not modified.",
  ["inputs", "configurations"], "all data sets, weights and regularization values up to the size bound whose normal matrix is invertible",
  "optimality for all data is not checked; predictions are only plotted.",
  [FA + "FunctionApproximatorWLS.py"], [("weighted least squares", FA + "FunctionApproximatorWLS.py")], ["train", "predict"])
P("P07", "Gaussian basis functions are correct and cover the input range evenly",
  "The activation of a basis function is the Gaussian of the distance to its center with its width, is 1 at the center and in "
  "(0,1] everywhere; normalised activations are proportional to them and sum to 1. Automatic placement puts centers "
  "equidistantly on the input range of each dimension (full grid), with positive widths such that neighbours intersect at the requested height.",
  ["inputs", "configurations"], "all inputs, centers, widths, intersection heights and grid shapes up to the bound",
  "only plots of a few settings are produced.",
  [FA + "basis_functions.py"], [("Gaussian.activations / get_centers_and_widths", FA + "basis_functions.py")], ["activations", "get_centers_and_widths"])
P("P08", "Training and prediction of RBFN, LWR and GPR follow their definitions",
  "RBFN weights and every local model of LWR solve their regularised (activation-weighted) least-squares problems on the training data, "
  "with basis functions placed on the input range, and predictions are the weighted sum (LWR: normalised blend) of "
  "those. GPR predicts the posterior mean for its kernel and interpolates its training data.",
  ["inputs", "configurations"], "all training sets, model parameters and query points up to the bound",
  "predicted values are never compared with anything.",
  FAS + [FA + "basis_functions.py"], [("_train / _predict of each approximator", FA)], ["train", "predict"])
P("P09", "Predictions are pointwise and pure; training replaces what was learned",
  "The prediction for an input does not depend on the other inputs of the batch, on their order, or on earlier predictions, and "
  "flat inputs mean one column. Training replaces everything learned before and keeps no reference to the caller's "
  "arrays; prediction before training and inputs of the wrong dimension are refused.",
  ["inputs", "histories"], "all model parameters and batches up to the bound, retraining histories",
  "relations between several calls are not compared.",
  FAS, [("train / predict of the base class", FA + "FunctionApproximator.py")], ["train", "predict"])
P("P10", "The parameter vector gives and takes exactly the selected model parameters",
  "Reading the parameter vector lists the selected parameters in the order of selection; writing one and reading it back "
  "returns the same values, predictions use the new values, and unselected parameters stay as they were. Vectors of the wrong "
  "size are refused without effect, and no array is shared with the caller.",
  ["inputs", "histories"], "all parameter values, all ordered selections up to the bound, every approximator kind",
  "round trips with arbitrary values are not checked.",
  FAS + [FA + "Parameterizable.py"], [("get_param_vector / set_param_vector / set_selected_param_names", FA + "Parameterizable.py")],
  ["get_param_vector", "set_param_vector", "predict"])
DM = "dmpbbo/dmps/"
DMP = [DM + "Dmp.py"] + SYS
P("P11", "The parameter vector of a DMP is its approximators' parameters, then the goal",
  "Reading the parameter vector of a DMP lists the selected parameters of every trained function approximator in the order of the "
  "dimensions, followed by the goal exactly when it is selected; writing a vector and reading it back returns it, and the movement uses the "
  "new values. Only the last selection counts, vectors of the wrong size are refused without effect, and no array is shared with the caller.",
  ["inputs", "histories"], "all parameter values, selections and dimensions up to the bound",
  "round trips through the optimiser's view of a DMP are not compared.",
  [DM + "Dmp.py", FA + "Parameterizable.py"], [("get/set_param_vector, set_selected_param_names", DM + "Dmp.py")],
  ["get_param_vector", "set_param_vector", "y_attr"])
P("P12", "A DMP starts at its initial state at rest and is attracted by its goal",
  "Integration of every DMP type starts at the initial state (also one passed when starting), at rest, with an open gate, the phase at its "
  "beginning and rates that equal the differential equation. The forcing term acts on the acceleration only, in proportion to the gate; "
  "with a closed gate the goal at rest is the only resting position, and energy about an arrived goal only changes by damping and by the gated forcing term.",
  ["inputs", "configurations"], "all types, scalings, states, starts and goals, arbitrary function approximators",
  "start values and equilibria are not compared.",
  DMP, [("integrate_start, differential_equation", DM + "Dmp.py")], ["integrate_start", "differential_equation", "analytical_solution"])
P("P13", "DMP dynamics and analytical solution follow the definition of the DMP type",
  "For every DMP type and forcing-term scaling the rates of change are those of the definition: a critically damped spring towards the "
  "(delayed) goal plus the gated, scaled outputs of the function approximators, and the phase, gate, goal and damping systems documented for the "
  "type or passed in. The analytical solution starts at the initial state, reports exactly these rates at each of its states, follows the "
  "subsystems' own solutions, and integrates the spring with Euler steps over the given times.",
  ["inputs", "configurations"], "all states, times, time constants, starts, goals, amplitudes; arbitrary function approximators",
  "the two formulations of a DMP are never compared with each other or with the definition.",
  DMP, [("differential_equation, analytical_solution, constructor defaults", DM + "Dmp.py")], ["differential_equation", "analytical_solution"])
P("P14", "Training a DMP inverts its dynamics, so demonstrations are reproduced",
  "Training sets time constant, start and goal to those of the demonstration, and hands the function approximators the phase and the "
  "targets for which the DMP has exactly the demonstration's accelerations at the demonstration's states; with approximators that fit them "
  "exactly, an Euler-consistent demonstration from rest is reproduced exactly. Retraining forgets earlier demonstrations and the demonstration is not modified.",
  ["inputs", "histories", "configurations"], "all demonstrations up to the size bound, all DMP types and scalings",
  "reproduction is only looked at in plots for one demonstration.",
  DMP + [DM + "Trajectory.py"], [("train, _compute_targets, from_traj", DM + "Dmp.py")], ["train", "analytical_solution"])
P("P15", "The time constant of a DMP changes its speed only",
  "For DMPs whose gate is not a sigmoid, two DMPs that differ only in the time constant pass through the same states at the same fraction of "
  "the time constant, with velocities inversely proportional to it and accelerations to its square. Setting the time constant later, any "
  "number of times, is the same as constructing the DMP with it.",
  ["inputs", "histories"], "all pairs of time constants, times, states, starts and goals",
  "two speeds are never compared.",
  DMP, [("tau setter", DM + "Dmp.py")], ["analytical_solution", "differential_equation"])
P("P16", "DMPs generalise to new starts and goals by translation and scaling",
  "Setting the initial state and goal of a DMP, in any order, gives the same movement as constructing it with them. Moving both by the same "
  "offset translates the path and leaves velocities and accelerations unchanged; with goal-minus-start scaling, "
  "scaling the distance to the goal scales the path about the start. Starts and goals of the wrong size are refused.",
  ["inputs", "histories"], "all types and scalings, all old and new starts and goals, offsets and factors",
  "generalisation to other goals is only looked at in plots.",
  DMP, [("y_init / y_attr setters, scale_goal_system", DM + "Dmp.py")], ["analytical_solution", "differential_equation", "integrate_start"])
P("P17", "A DMP's behaviour depends on its settings, not on its history",
  "After any sequence of changing time constant, start or goal, evaluating, solving, starting, stepping and decoupling parameters a DMP behaves like one newly "
  "constructed with the current settings. Evaluating never changes arguments or constructor arrays, repeated calls repeat their results, "
  "other DMPs have no influence, and stepwise integration equals integration over a sequence of times.",
  ["histories", "inputs"], "all operation sequences up to the bound with arbitrary values, all DMP types",
  "operation histories are not explored.",
  DMP, [("setters and the shared spring system", DM + "Dmp.py")], ["differential_equation", "analytical_solution", "integrate_start"])
P("P18", "Schedules follow the phase, respect their bounds, and leave the movement alone",
  "The schedules of a DMP are the predictions of their function approximators for the current phase, clipped to the lower and upper bounds that "
  "were given (scalar or per schedule), at the start, after a step and in the analytical solution; the movement itself is the one without schedules. "
  "Training reproduces the demonstrated schedules, and the selected parameters of movement, goal and schedules can be read and written as one vector.",
  ["inputs", "configurations"], "all bounds, arbitrary function approximators, all states and demonstrations up to the size bound",
  "bounds and schedules are not compared with anything.",
  DMP + [DM + "DmpWithSchedules.py"], [("_get_schedules, from_traj_sched, integrate_*_sched, analytical_solution_sched", DM + "DmpWithSchedules.py")],
  ["integrate_start_sched", "integrate_step_sched", "analytical_solution_sched"])
P("P19", "A contextual DMP moves as the DMP with the parameters predicted for the context",
  "Training a contextual DMP sets duration, start and goal to the means of those of the demonstrations and trains one policy function per selected parameter on "
  "contexts and the parameters of the demonstrations' own DMPs; for any context the start, rates, and solution are those of the DMP with the predicted "
  "parameters, whatever was evaluated before. For demonstrations with common duration, start and goal a demonstrated context gives the demonstration's "
  "own movement when the approximators fit exactly; retraining forgets, and demonstrations and templates are not modified.",
  ["inputs", "histories", "configurations"], "all contexts and demonstrations up to the size bound, arbitrary parametric approximators",
  "only plots of one example are made.",
  [DM + "DmpContextualTwoStep.py", DM + "Dmp.py"], [("train, from_trajs, from_dmp, set_task_params, integrate_start", DM + "DmpContextualTwoStep.py")],
  ["set_task_params", "analytical_solution", "integrate_start"])
TR = [DM + "Trajectory.py"]
P("P20", "Generated trajectories meet their boundary conditions",
  "A polynomial trajectory has the requested position, velocity and acceleration at its first and last time; a minimum-jerk trajectory is at rest at both, moves "
  "monotonically and symmetrically, and is the polynomial with zero boundary rates. In both, velocities and accelerations are the time derivatives of "
  "positions, whatever the start time and duration. Over uniformly spaced times a via-point trajectory starts and ends at rest and passes through the requested "
  "position, velocity and acceleration at the samples around the via-point time.",
  ["inputs"], "all increasing times, durations, boundary values and via points, up to the size bound",
  "no boundary value of a generated trajectory is compared.",
  TR, [("from_polynomial, from_min_jerk, from_viapoint_polynomial", DM + "Trajectory.py")], ["ts", "ys", "yds", "ydds"])
P("P21", "Joining, padding and cropping trajectories keeps samples and times consistent",
  "Appending or prepending concatenates the samples, shifts times so that they increase with one time step in between, keeps miscellaneous variables if both have them, and leaves the other "
  "trajectory alone; padding adds samples at rest at the first or last position one mean time step apart. Cropping by index or by time (including the start, excluding the "
  "end) keeps exactly the samples in the range and refuses empty ranges. Length, duration, mean time step, first and last position and matrix always agree with the samples, also after several operations.",
  ["inputs", "histories"], "all times, values, ranges and numbers of padded samples up to the bound; sequences of operations",
  "none of these operations is tested.",
  TR, [("append, prepend, pad_front, pad_end, crop", DM + "Trajectory.py")], ["as_matrix", "ts", "ys", "dt_mean"])
P("P22", "Trajectory views carry the same data and can be read back",
  "The matrix and the dataframe of a trajectory contain time, positions, velocities, accelerations and miscellaneous variables, per sample and dimension, and a trajectory "
  "read from the matrix, or from a file up to the decimals written, equals the original. Rates that are not given, or recomputed, are central differences of the evenly spaced "
  "samples (exact for constant acceleration away from the ends). Arrays whose sizes do not match are refused, and no array passed in is modified.",
  ["inputs"], "all times and values, sizes up to the bound",
  "files and matrices are not compared with the trajectory they come from.",
  TR, [("as_matrix, from_matrix, savetxt, loadtxt, as_dataframe, diffnc", DM + "Trajectory.py")], ["as_matrix", "savetxt", "as_dataframe"])
BB = "dmpbbo/bbo/"
P("P23", "Costs become normalised weights that prefer low costs",
  "Weights are non-negative and sum to one, and a lower cost never gets a lower weight. The exponential weighting falls off with the cost relative to the range of costs (equal "
  "costs get equal weights), the rank-based ones weight the given number of best samples equally or logarithmically and give the others nothing. Weights do not depend on offset or unit of "
  "the costs, follow the samples when these are reordered, and only use the total cost of cost components.",
  ["inputs", "configurations"], "all costs (distinct for rank-based weights) and weighting parameters, up to the number of samples",
  "no weight is ever compared.",
  [BB + "updaters.py"], [("costs_to_weights", BB + "updaters.py")], ["costs_to_weights"])
P("P24", "Updates move the mean to the weighted average of the samples",
  "Updating a search distribution with samples and costs makes its mean the average of the samples, weighted by the weights that belong to the costs, so it stays in their range, becomes "
  "the best sample if only that is elite, and moves along when samples and distribution are moved. The order of the samples does not matter, "
  "distribution, samples and costs passed in are not modified, and a bounded distribution keeps its class and bounds.",
  ["inputs", "configurations"], "all samples, distributions, costs, weighting methods and parameters, up to the size bound, for all updaters",
  "no updated distribution is compared with anything.",
  [BB + "updaters.py", BB + "DistributionGaussian.py", BB + "DistributionGaussianBounded.py"], [("update_distribution of the updaters", BB + "updaters.py")], ["update_distribution"])
P("P25", "Covariance updates give the specified, valid covariance matrices",
  "The covariance stays the same when only the mean is updated, shrinks by the square of the decay factor with decay, and with adaptation moves at the learning rate towards the "
  "weighted covariance of the samples about the current mean (its diagonal only, if so chosen), with variances limited to the given range. The result is always symmetric and "
  "positive semi-definite, inputs are not modified, and learning rates outside [0,1] are refused.",
  ["inputs", "histories", "configurations"], "all samples, costs, covariances, decay factors, learning rates and limits, up to the size bound",
  "no updated covariance is compared with anything.",
  [BB + "updaters.py"], [("UpdaterCovarDecay, UpdaterCovarAdaptation", BB + "updaters.py")], ["update_distribution"])
P("P26", "Samples follow the distribution and respect its bounds",
  "Samples of a search distribution have its mean and covariance and are uncorrelated with each other, and sampling does not change the distribution. Samples of a bounded distribution "
  "never leave the bounds; those within are kept, others are moved to the nearest bound. The largest eigenvalue reported is that of "
  "the covariance, and a mean and covariance of different sizes are refused.",
  ["inputs", "configurations"], "all means, positive definite covariances and bounds, up to the dimension bound",
  "mean, covariance and bounds of samples are not examined.",
  [BB + "DistributionGaussian.py", BB + "DistributionGaussianBounded.py"], [("generate_samples", BB)], ["generate_samples", "max_eigen_value"])
P("P27", "An optimization evaluates, samples and updates once per update and records it",
  "Each update of an optimization (of a cost function, or of a task with rollouts) evaluates the mean once, draws the requested number of samples from the current distribution, "
  "evaluates each once, and updates the distribution with exactly these samples and their costs. The recorded samples, rollouts, costs, weights and distributions and the "
  "learning curve are those of the optimization, also when read back from its directory; the initial distribution is not modified.",
  ["inputs", "histories", "configurations"], "arbitrary cost functions, rollouts and updates, all initial distributions and random samples, numbers of updates and samples up to the bound",
  "no record of an optimization is compared with the optimization.",
  [BB + "run_optimization.py", "dmpbbo/bbo_of_dmps/run_optimization_task.py", BB + "LearningSession.py", "dmpbbo/bbo_of_dmps/LearningSessionTask.py"],
  [("run_optimization, run_optimization_task", "dmpbbo"), ("add_eval, add_update, get_learning_curve", BB + "LearningSession.py")], ["ask", "get_learning_curve"])
P("P28", "A learning session returns what was stored last, in memory and on disk",
  "Asking a learning session for a name, update and sample returns the value stored last under exactly these, whatever was stored under others; things not stored do not exist and asking for them is an error. "
  "Numbers of updates and samples may be numpy integers, and modifying objects that were stored or returned does not change the session. Costs of samples, learning curve and cost ratio "
  "follow from what was stored, and all of this also holds for a session read back from its directory.",
  ["histories", "inputs"], "all sequences of stores up to the bound, arbitrary values",
  "sequences of stores are not explored and no stored value is compared.",
  [BB + "LearningSession.py"], [("tell, ask, exists, save_all, from_dir", BB + "LearningSession.py")], ["ask", "exists", "get_learning_curve"])
P("P29", "Optimizing step by step hands out the right DMPs and performs the same updates",
  "Each update of a step-by-step optimization provides one DMP per rollout with the sample as its parameters, and one for evaluation with the mean; everything else in them is that of "
  "the initial DMP. The update uses the costs of the rollouts reported for exactly these samples, the recorded distributions, costs, weights and learning curve are those of the "
  "optimization, and reading the session back from its directory between the steps makes no difference.",
  ["inputs", "histories", "configurations"], "arbitrary rollouts, costs, samples and updates; parameter selections, numbers of updates and samples up to the bound",
  "step-by-step optimization is not tested with expected values.",
  ["dmpbbo/bbo_of_dmps/step_by_step_optimization.py", "dmpbbo/bbo_of_dmps/LearningSessionTask.py"],
  [("prepare_optimization, update_step", "dmpbbo/bbo_of_dmps/step_by_step_optimization.py")], ["ask", "get_learning_curve"])
P("P30", "A rollout is the movement of the DMP with the sample as its parameters",
  "A DMP task solver's rollout consists of time, positions, velocities and accelerations of the movement that a DMP constructed with the sample as its parameters (function approximators, goal, or both) makes "
  "from time zero to the integration factor times the time constant, in as many equal time steps as fit. Earlier rollouts have no influence, the sample and the DMP passed in are not "
  "modified, and the dataframe contains the same numbers as the matrix.",
  ["inputs", "histories", "configurations"], "all samples, time constants, steps, factors, starts and goals; arbitrary function approximators",
  "no rollout is compared with the movement of a DMP.",
  ["dmpbbo/bbo_of_dmps/TaskSolverDmp.py", DM + "Dmp.py"], [("perform_rollout, perform_rollout_dmp", "dmpbbo/bbo_of_dmps/TaskSolverDmp.py")], ["perform_rollout"])
CD, CF, CM = "src/dynamicalsystems/", "src/functionapproximators/", "src/dmp/"
CPPT = ("symbolic execution of the real C++ code (and of the Python code it is compared with) + SMT (z3), counterexamples replayed",
        "The C++ sources are compiled on every run with a symbolic number type in place of double; every arithmetic operation and every comparison is done by the symbolic "
        "engine. Holds for all real values of the symbolic inputs within the stated sizes/steps; exact real arithmetic instead of floats; trusts z3, g++, the expression "
        "normaliser (cross-checked numerically); path witnesses are re-run on the C++ code with double.")
TECH = {p: CPPT for p in ("P31", "P32", "P33", "P34", "P35")}
P("P31", "C++ dynamical systems behave as the Python ones with the same parameters",
  "For the same parameters and state, the rates of change, integration steps (Euler and Runge-Kutta, also in place), first states and closed-form solutions (also transposed) of the C++ systems are those of "
  "the Python systems, also after setting time constant, initial state or attractor. This includes systems exported from Python and read by C++, "
  "and those written and read again by C++.",
  ["inputs", "histories", "configurations"], "all parameters, states, step sizes and times for the systems both libraries have; arbitrary right-hand sides for the integrators",
  "one trajectory per system is compared within a tolerance.",
  [CD], [("differentialEquation, analyticalSolution of the systems", CD), ("integrateStart, integrateStepEuler, integrateStepRungeKutta", CD + "DynamicalSystem.cpp")],
  ["differentialEquation", "integrateStep", "analyticalSolution"])
P("P32", "C++ function approximators predict what the exported Python models predict",
  "The C++ library's predictions, for many inputs at once and for single inputs in real time, are those of the Python model it was exported from, also after C++ has written and read it again; several models do not "
  "influence each other, and inputs are not modified. Activations follow their definition: Gaussian (also with full covariance matrices, asymmetric widths, and normalised) and cosine.",
  ["inputs", "configurations", "histories"], "all parameters of LWR and RBFN models and all inputs, up to the size bound",
  "one trained model is compared on a grid of inputs.",
  [CF, "src/eigenutils/eigen_json.tpp", "dmpbbo/json_for_cpp.py"],
  [("predict, predictRealTime", CF), ("Gaussian::activations, Cosine::activations", CF + "BasisFunction.cpp")], ["predict", "predictRealTime"])
P("P33", "C++ DMPs make the movement of the Python DMP with the same parameters",
  "First state, rates of change, integration steps and analytical solution (states, forcing terms, positions, velocities, accelerations) of a C++ DMP are those of the Python DMP with the same movement type, "
  "scaling, subsystems and function approximators, however it was constructed: from subsystems, from a movement type, without forcing term, or from the JSON "
  "exported by Python or C++. The same holds after setting time constant, start, goal, damping and spring constant, and after starting from another position.",
  ["inputs", "histories", "configurations"], "all parameters and states, arbitrary function approximators, for movement types both libraries have, up to the dimension bound",
  "one movement is compared within a tolerance.",
  [CM + "Dmp.cpp", CM + "Dmp.hpp", "dmpbbo/json_for_cpp.py"],
  [("integrateStart, differentialEquation, analyticalSolution, set_*", CM + "Dmp.cpp"), ("from_json, to_json_helper", CM + "Dmp.cpp")],
  ["differentialEquation", "integrateStart", "analyticalSolution"])
P("P34", "The real-time functions of the C++ library never allocate memory",
  "Computing rates of change and integrating one step, of a C++ dynamical system or DMP, and predicting for one input in real time do not allocate heap memory: on the first "
  "call, on later ones, after changing parameters, and for objects read from JSON.",
  ["inputs", "histories", "configurations"], "all paths through these functions, for all systems, movement types, scalings and models, up to the size bound",
  "allocation is only checked if a debug build happens to be run, with one configuration.",
  [CD, CF, CM + "Dmp.cpp"], [("differentialEquation, integrateStep, predictRealTime", "src/")], ["differentialEquation", "integrateStep", "predictRealTime"])
P("P35", "C++ trajectories are those of the Python library and survive files",
  "Minimum-jerk, polynomial and via-point trajectories generated in C++ equal the Python ones and meet their boundary conditions; duration, range, first and last position and matrix follow from the samples, and "
  "appending keeps all samples, the common one once. Trajectories written to a file by either library are read by C++ or Python with the same numbers up to rounding, existing files are "
  "only overwritten if asked for, and whether a file was written is reported correctly.",
  ["inputs", "configurations", "histories"], "all times, boundary conditions and samples, up to the size bound",
  "no C++ trajectory is compared with anything.",
  [CM + "Trajectory.cpp", "src/eigenutils/eigen_file_io.tpp"],
  [("generate*Trajectory, append, asMatrix, saveToFile, readFromFile", CM + "Trajectory.cpp")], ["generateMinJerkTrajectory", "generatePolynomialTrajectory", "saveToFile"])
P("P36", "Parameters of the systems inside a DMP can be set by name",
  "Setting parameters of the spring-damper, goal or damping system of a DMP by name, to scalars or one value per dimension, makes it move like a DMP constructed with systems that have these parameters. All other "
  "parameters, other DMPs and the values passed in stay as they were, and values set later replace earlier ones. Systems the DMP does not have and parameters that do not exist are refused.",
  ["inputs", "histories", "configurations"], "all parameter values, all choices of systems and parameters, all DMP types, up to the dimension bound",
  "no test sets any parameter of a subsystem.",
  [DM + "Dmp.py"] if "DM" in globals() else ["dmpbbo/dmps/Dmp.py"], [("Dmp.set_params_dyn_sys", "dmpbbo/dmps/Dmp.py")], ["set_params_dyn_sys", "differential_equation", "analytical_solution"])
EX = "demos/python/bbo_of_dmps/"
P("P37", "The example tasks charge what they say they charge",
  "The costs of the example tasks (via-point, via-point with an arm or with gains, ball throwing, distance to a point) are a total that is the sum of its components, and one weighted component per label: distance of the "
  "closest sample, or of the one at the given time, to the via-point beyond the radius, mean accelerations over the whole rollout, distances to the goal after its time, size of the parameters, gains, and landing site. "
  "Components without weight cost nothing, rollouts as matrix or dataframe cost the same, rollouts and samples are not modified, and data of the wrong size are refused.",
  ["inputs", "configurations"], "all rollouts, samples, weights, times and goals up to the size bound",
  "no test evaluates the costs of a task.",
  ["demos/python/bbo_of_dmps/TaskViapoint.py", "demos/robot/TaskThrowBall.py"],
  [("TaskViapoint.evaluate_rollout, get_waypoint", EX + "TaskViapoint.py"), ("TaskViapointArm2D.evaluate_rollout", EX + "arm2D/TaskViapointArm2D.py"),
   ("TaskThrowBall.evaluate_rollout", "demos/robot/TaskThrowBall.py")], ["evaluate_rollout"])
P("P38", "The example simulators follow their equations of motion",
  "Every link of the simulated arm points in the direction of the sum of its joint angles and has the length that was given (or an equal share of one), and the arm's rollouts are the movement of the DMP's joints with these links. "
  "A thrown ball moves with the hand until it is released, then flies with the hand's velocity under gravity until it reaches the floor and stays there, in Python and in C++, and the movement of the hand that is recorded "
  "is that of the DMP. In the force field the desired movement and the gains are those of the DMP, and the actual one follows from the controller and the field.",
  ["inputs", "histories"], "all movements of the hand, angles, lengths, floors, fields and step sizes up to the size bound",
  "no test runs a simulator with a known result.",
  ["demos/robot/TaskThrowBall.py", "demos/robot/runSimulationThrowBall.cpp", EX + "arm2D/TaskSolverDmpArm2D.py"],
  [("run_python_simulation", "demos/robot/TaskThrowBall.py"), ("ThrowBallSimulator::integrateStep", "demos/robot/runSimulationThrowBall.cpp"),
   ("angles_to_link_positions", EX + "arm2D/TaskSolverDmpArm2D.py"), ("perform_rollout", EX + "with_schedules/force_field_simulator.py")],
  ["run_python_simulation", "integrateStep", "perform_rollout"])
