TRUST = " Trusts NumPy, joblib/Open MPI and the harness; says nothing about executions it did not drive."

prop("C01", "Every reported solution was really evaluated and carries its real value",
     "For every optimizer, the (x, fun) pair of the returned result and of every state handed to the callback is a point at which the "
     "objective was actually evaluated in that run, and fun is exactly the value the objective returned there. The only exception is the "
     "CMA-ES/VD-CMA 'Penalize' constraint, where a point lying on the boundary of the box may carry a larger (penalized) value, never a smaller one.",
     ["inputs", "configurations", "histories"],
     "all objectives (ties, integer-valued, piecewise constant, +inf regions), bounds, options, updatings, iterations",
     "The tests compare one final x on Rosenbrock with seed 42; they never relate fun to x, look at intermediate states, or use integer-valued or tied objectives.",
     ALLOPT + [SHR, PEN],
     [("xbest/xbestfun updated together from the selected candidate", COMMON + ":selection_sync/selection_async"),
      ("values collected in the order of the candidates", COMMON + ":optimizer"),
      ("best member of the generation by argsort", CMA + ":cmaes")],
     "runtime monitor: reported pairs looked up in the recorded log of objective calls",
     "Every reported pair of the executed runs is compared with the complete call log." + TRUST)

prop("C02", "The best solution found so far is never lost",
     "With PSO, CPSO, DE and NA the reported fun equals the minimum over all objective values obtained up to that moment, in every callback "
     "state and in the result, through restarts, constraint handling and either updating mode, so it never increases. With CMA-ES and VD-CMA it is the "
     "best value of the current generation.",
     ["inputs", "histories", "configurations"],
     "all evaluation histories: ties, +inf, collapsed and restarted swarms, one to hundreds of iterations",
     "Tests look at the final x of a smooth problem; a lost best is then invisible because later iterations find it again.",
     ALLOPT,
     [("greedy selection and global best update", COMMON + ":selection_sync/selection_async"),
      ("restart keeps the global best", CPSO + ":restart"), ("best of generation", CMA + ":cmaes")],
     "runtime monitor: running minimum over the call log vs every reported value",
     "Exact comparison with the running minimum of the recorded values on every iteration of the executed runs." + TRUST)

prop("C03", "Evaluations and iterations are counted truthfully and never exceed the budget",
     "An optimizer evaluates the objective exactly popsize times per iteration, performs between 1 and maxiter iterations, reports nfev equal to "
     "the number of objective calls and nit equal to the number of iterations, and calls the callback exactly once per iteration with nit = 1, 2, ... "
     "and the nfev of that moment, whether or not a callback is given. Samplers deliver exactly maxiter samples with one callback each; hmc's nfev counts all objective calls.",
     ["inputs", "configurations", "histories"],
     "all methods, maxiter from 1, all termination causes, updatings and constraints",
     "Tests check neither nfev nor the number of calls, and never use maxiter 1 or early termination with a counter.",
     ALLOPT + [MC, HMC],
     [("nfev=it * popsize", DE + ":de"), ("loop until status is set", CPSO + ":cpso"), ("count wrapper", HMC + ":count")],
     "runtime monitor: counting objective and callback calls against reported counters",
     "Exact counting at the client boundary; also decides that runs stop (bounded by an evaluation budget)." + TRUST)

prop("C04", "Nothing leaves the bounds once a constraint is active",
     "With constraints='Shrink' (PSO, CPSO), 'Random' (DE), 'Penalize' (CMA-ES, VD-CMA), and always with NA, every point at which the objective is evaluated, "
     "every callback population, every stored and returned solution lies within the bounds up to round-off. With 'Reject' every sample of mcmc and hmc lies within the bounds. "
     "Initial populations and initial samples drawn by the library lie within the bounds whether or not a constraint is set.",
     ["inputs", "configurations", "histories"],
     "all boxes (scales, offsets, optimum on or beyond faces), velocities, long runs; starting points inside the bounds",
     "Tests with constraints only compare the final x of an interior optimum; nothing inspects the evaluated points.",
     [SHR, RND, PEN, REJ, NA, CPSO, DE, CMA, VD, MC, HMC, COMMON],
     [("velocity shrinking and clipping", SHR + ":Shrink"), ("resampling", RND + ":Random"), ("clipping to [-1, 1]", PEN + ":Penalize"),
      ("in_search_space", REJ), ("cell limits clipped to [0, 1]", NA + ":mutation"), ("lhs", COMMON + ":lhs")],
     "runtime monitor: box invariant on every evaluated, delivered and stored point",
     "Every point of the executed runs is tested with a tolerance of a few ulps of the bounds." + TRUST)

prop("C05", "Termination status, message and success tell the truth, and runs stop when due",
     "success is (status >= 0), message belongs to status, and success implies fun <= ftol; PSO, CPSO, DE and NA stop at the first iteration after the "
     "initial one whose best value is <= ftol (status 0 when the best solution moved by at most xtol then, 1 otherwise) and else run exactly maxiter iterations (status -1 only then and only with fun > ftol). "
     "CMA-ES and VD-CMA stop at the first generation whose best is <= ftol, report -1 exactly when maxiter is exhausted, and report the flat-fitness causes only if the values really were equal.",
     ["inputs", "histories", "configurations"],
     "all value histories relative to ftol/xtol incl. ftol met by any member, in the last allowed iteration, initially, never",
     "Tests never read status, success or message.",
     ALLOPT,
     [("status assignment", COMMON + ":selection_sync/selection_async"), ("end-of-iteration checks", DE + ":de_async"),
      ("converge", CMA + ":converge"), ("messages", COMMON + ":messages")],
     "runtime monitor: stopping rule re-evaluated on the recorded values",
     "The monitor recomputes from the log when and why each executed run had to stop." + TRUST)

prop("C06", "A seed fixes the run completely",
     "Two runs with the same arguments and the same integer seed (0 included) evaluate bitwise the same points and deliver bitwise the same callback states and results, "
     "regardless of what was drawn from NumPy's generator before, of other runs in the process, and across fresh interpreter processes. Different seeds lead to different candidates. "
     "Without a seed a run goes on from the present state of NumPy's global generator: it equals the run with seed s if np.random.seed(s) was called just before, and successive runs differ.",
     ["inputs", "configurations", "histories"],
     "all methods and options, any prior history of the process and its random state",
     "Each test runs once from the same process history with seed 42.",
     ALLOPT + [MC, HMC],
     [("np.random.seed(seed) before any draw", DE + ":minimize"), ("same", MC + ":sample")],
     "differential runtime monitor: bitwise trace comparison across process histories",
     "Bitwise comparison of complete traces between executions with disturbed generator state, other runs in between, and fresh interpreters." + TRUST)

prop("C07", "Thread and process parallelism changes nothing but speed",
     "With workers other than 0 and 1 (backend None, 'threading' or 'loky'), every optimizer returns bitwise the result and callback states of its serial run with updating='deferred' "
     "(also if 'immediate' was asked for), whatever order the evaluations complete in. Each candidate is evaluated exactly once, at most `workers` evaluations are in flight, and evaluations do overlap.",
     ["schedules", "configurations", "inputs"],
     "all completion orders of the objective calls, worker counts incl. negative, population sizes not divisible by workers",
     "Tests run threading once per method with an instantaneous objective and compare the final x loosely.",
     [COMMON, DE, CPSO, PSO, NA, CMA, VD],
     [("parallel(fun(xx) for xx in x) keeps order", COMMON + ":optimizer"), ("sync forced by workers", DE + ":minimize")],
     "runtime monitor: injected delays, event log, bitwise comparison with serial run",
     "Real threads and worker processes with scrambled completion order; distinct orders counted in the evidence." + TRUST,
     observe=["start/finish events of objective calls in threads and processes", "callback", "returned result"])

prop("C08", "MPI processes agree with each other and with the serial run",
     "With backend='mpi' all processes return the same result and see the same callback states, with or without a seed and whatever their previous random states; with a seed it is bitwise "
     "the serial deferred result. Over all processes each candidate is evaluated exactly once, for any number of processes and population size, and no process is left waiting for the others.",
     ["schedules", "configurations", "inputs"],
     "all process counts, relative speeds of the processes, seeded and unseeded runs, all optimizers",
     "The test suite runs the mpi backend with a single process only.",
     [COMMON, DE, CPSO, PSO, NA, CMA, VD],
     [("common generator state broadcast, candidate broadcast, strided split and Allreduce", COMMON + ":optimizer")],
     "runtime monitor: real mpirun launches, per-rank event logs checked offline",
     "Real multi-process executions with rank-dependent delays and unrelated generator states; a stall is only a violation if some process finished or the same logical state recurs." + TRUST,
     observe=["objective calls, callbacks and results on every MPI process"])

prop("C09", "Stored histories are exactly what happened",
     "With return_all, xall has shape (nit, max(1, ceil(verbosity*popsize)), ndim) and funall (nit, max(1, ceil(verbosity*popsize))); entry [g] holds the first members of the population of iteration g+1 in the units of the problem with their values, "
     "or, with verbosity 0, the best of that iteration. For PSO, CPSO, NA, CMA-ES and VD-CMA the population is the points evaluated in that iteration (values as evaluated, penalized under 'Penalize'); for DE it is the population after greedy selection. "
     "The histories in callback states are the corresponding prefixes, and neither they nor state.x and state.fun change later; without return_all there are none.",
     ["inputs", "configurations", "histories"],
     "all methods, verbosities in [0, 1], popsizes, iteration counts, constraints and updatings",
     "Tests never use return_all.",
     [DE, CPSO, NA, CMA, VD],
     [("xall[it - 1] = ...; funall[it - 1] = ...", DE + ":de"), ("unstandardize/unnormalize", NA + ":na")],
     "runtime monitor: histories compared with the recorded log and callback populations",
     "Every stored row of the executed runs is compared with the call log (DE: with a replayed greedy selection)." + TRUST)

prop("C10", "Observing a run does not change it",
     "Turning return_all on or off, choosing any verbosity, and passing or omitting a callback changes neither the points evaluated nor their order nor any other field of the result, for every optimizer and sampler.",
     ["configurations", "inputs"],
     "all combinations of return_all, verbosity and callback for otherwise equal seeded runs",
     "Tests exercise a callback and no history, and compare with nothing.",
     [DE, CPSO, NA, CMA, VD, MC, HMC],
     [("history and callback blocks", DE + ":de"), ("same", MC + ":sample")],
     "differential runtime monitor: bitwise traces across observer settings",
     "Bitwise comparison of call logs and results across observer settings of the same seeded run." + TRUST)

prop("C11", "Arguments are left untouched and their representation does not matter",
     "No run modifies bounds, x0, options, args or array-valued options such as stepsize, and the result and histories share no memory with x0. "
     "Bounds, x0 and stepsize given as lists, tuples, arrays of any memory layout, read-only arrays or integers of equal value give bitwise the same run.",
     ["inputs", "configurations"],
     "all methods and containers/dtypes/layouts of equal numeric value",
     "Tests pass float lists once and never look at their arguments afterwards.",
     [DE, CPSO, NA, CMA, VD, MC, HMC, COMMON],
     [("np.array(x0, dtype=float)", DE + ":de"), ("np.asarray(stepsize) * ...", MC + ":sample"), ("np.transpose(bounds)", NA + ":na")],
     "differential runtime monitor: deep snapshots of arguments, traces across representations",
     "Deep comparison before/after and bitwise trace comparison between representations." + TRUST)

prop("C12", "Objective, gradient and callback are called as documented",
     "The objective and jac are called as f(x, *args) with x a one-dimensional float array of finite numbers of length ndim and the very args given, and nothing else. The callback receives the current population "
     "(optimizers, shape (popsize, ndim)) or sample (samplers, shape (ndim,)) and a result object with x, fun, nit (and nfev, accept_ratio, histories where applicable) but no status, success or message; the final result has all documented fields with documented types.",
     ["inputs", "configurations", "histories"],
     "all methods, dimensions incl. 1, args tuples, extreme but valid parameters (finite for constrained and moderately long unconstrained runs)",
     "Tests use one 2-D objective without args and a callback that only checks it is called.",
     [COMMON, DE, CPSO, NA, CMA, VD, MC, HMC],
     [("fun(xx, *args)", COMMON + ":optimizer"), ("jac(x, *args)", HMC + ":sample"), ("callback(X, res)", DE + ":de")],
     "runtime monitor: assertions on every call crossing the user boundary",
     "Every call of the executed runs is checked for type, shape, dtype, finiteness and arguments." + TRUST)

prop("C13", "DE trials obey the mutation, crossover and selection law",
     "Every DE trial takes at least one component from the mutant and each other component from the mutant with probability `recombination`, else from the target; the mutant is the best member so far (best1bin, best2bin) or a member other than the target "
     "(rand1bin, rand2bin) plus `mutation` times one or two differences of members distinct from each other and from the target, chosen uniformly. With 'Random' exactly the components that leave the box are redrawn uniformly inside it. "
     "A trial replaces its target if it is better (ties either way), at once with 'immediate' and at the end of the generation with 'deferred'.",
     ["inputs", "histories", "configurations"],
     "all populations, strategies, F, CR, updatings, dimensions, constraint settings",
     "Seeded end results pin a few trajectories; off-nominal strategies, sizes and statistics are not examined.",
     [DE, STRAT, RND, COMMON],
     [("strategies", STRAT), ("delete_shuffle_*", DE), ("binomial crossover with forced component", DE + ":de_sync/de_async"), ("Random", RND)],
     "runtime monitor: provenance of every trial resolved against the replayed population; pooled statistics",
     "Each trial of the executed runs is explained by an enumeration of member tuples; rates are z-tested with false-alarm probability below 1e-8." + TRUST)

prop("C14", "Swarm moves obey the PSO velocity law",
     "Each particle moves by w times its previous move plus c1 r1 times the vector to its own best position plus c2 r2 times the vector to the best position of the swarm, component by component with fresh independent r1, r2 uniform in [0, 1], starting from zero velocity. "
     "With 'Shrink' the whole move is scaled by one factor in [0, 1], which is 1 if the move stays inside the box and otherwise the largest that does. Under 'immediate' the swarm best is updated particle by particle, under 'deferred' once per iteration.",
     ["inputs", "histories", "configurations"],
     "all swarms, coefficients, updatings, boxes; CPSO without competitivity behaves the same",
     "A handful of seeded end results cannot tell a wrong coefficient from chance on other settings.",
     [CPSO, PSO, SHR, COMMON],
     [("mutation", CPSO + ":mutation"), ("Shrink", SHR), ("pso_async", CPSO)],
     "runtime monitor: moves reconstructed from the call log checked against the velocity envelope; pooled statistics",
     "Each move of the executed runs must lie in its componentwise envelope; recovered r1/r2 are tested for uniformity and independence." + TRUST)

prop("C15", "CPSO restarts exactly the worst particles, exactly when the swarm has collapsed",
     "After an iteration, CPSO reinitializes particles only if the greatest distance of a particle to the best position, divided by sqrt(4*ndim), is below ln(1+0.003*popsize)/max(0.2, ln(0.01*maxiter)); "
     "it then reinitializes exactly the int((popsize-1)/(1+exp((nit/maxiter-competitivity+0.5)/0.09))) particles with the worst own best values, giving them uniformly distributed positions inside the bounds, zero velocity and no memory. All other particles, and the best solution, are unaffected.",
     ["inputs", "histories", "configurations"],
     "all swarms around the collapse threshold, competitivities, iterations, population sizes",
     "Seeded end results with one competitivity value; restarts are never observed as such.",
     [CPSO],
     [("restart", CPSO + ":restart"), ("delta", CPSO + ":cpso")],
     "runtime monitor: replayed swarm state decides who must have been restarted; uniformity tests",
     "Runs with c2=0 expose restart positions exactly; the set of restarted particles is compared with the replayed memory on every iteration." + TRUST)

prop("C16", "NA resamples inside the Voronoi cells of its best models",
     "Each new NA sample lies in the Voronoi cell (distances in coordinates normalized by the bounds) of one of the max(1, int(nrperc*popsize)) best of all previous samples, and these cells receive equal numbers of new samples up to one. "
     "Within its cell each coordinate is drawn uniformly between the cell walls along that axis, clipped to the bounds; variables fixed by equal bounds keep their value.",
     ["inputs", "histories", "configurations"],
     "all sample clouds, dimensions, nrperc, boxes incl. fixed variables",
     "One seeded end result.",
     [NA],
     [("mutation", NA + ":mutation"), ("normalize/unnormalize", NA + ":na")],
     "runtime monitor: nearest-neighbour oracle over all recorded samples; uniformity of wall fractions",
     "Brute-force nearest neighbours over every sample of the executed runs, with a tolerance for points on cell walls." + TRUST)

prop("C17", "CMA-ES samples and adapts as the published algorithm prescribes",
     "Each generation of CMA-ES is drawn from a normal distribution whose mean, step size and covariance follow from the previous generations by the published (mu/mu_w, lambda)-CMA-ES update with mu = max(1, int(muperc*popsize)) logarithmically weighted parents, in coordinates where the box is [-1, 1]. "
     "With 'Penalize' points are clipped to the box and ranked by value plus the published adaptive boundary penalty.",
     ["inputs", "histories", "configurations"],
     "all objectives, dimensions, popsizes, muperc, sigma, boxes, starting points",
     "Four seeded end points on 2-D Rosenbrock.",
     [CMA, PEN],
     [("update equations", CMA + ":cmaes"), ("Penalize", PEN)],
     "runtime monitor: independent reference model re-synchronized with observed samples",
     "A reference written from the publication is driven by the observed points; Mahalanobis norms must match those of the regenerated normal numbers (or chi-square statistics if the stream differs)." + TRUST)

prop("C18", "VD-CMA samples and adapts as the published algorithm prescribes",
     "Each generation of VD-CMA is drawn from a normal distribution with covariance sigma^2 D(I+vv^T)D whose mean, sigma, D and v follow from the previous generations by the published VD-CMA update with two-point step-size adaptation, in coordinates where the box is [-1, 1]. "
     "With 'Penalize' points are clipped to the box and ranked by value plus the published adaptive boundary penalty.",
     ["inputs", "histories", "configurations"],
     "all objectives, dimensions, popsizes, muperc, sigma, boxes, starting points",
     "Four seeded end points on 2-D Rosenbrock.",
     [VD, PEN],
     [("update equations", VD + ":vdcma"), ("pvec_and_qvec, ngv_ngd", VD), ("Penalize", PEN)],
     "runtime monitor: independent reference model re-synchronized with observed samples",
     "A reference written from the publication is driven by the observed points and must predict every next generation." + TRUST)

prop("C19", "Initial populations are as documented",
     "A population x0 is evaluated unchanged as the first iteration of PSO, CPSO, DE and NA; without x0 it is a Latin hypercube: in every dimension each of the popsize equal strata of the bounds contains exactly one member, with independent random pairing between dimensions. "
     "CMA-ES and VD-CMA start around x0 (uniformly random in the bounds if absent), CMA-ES with standard deviation sigma times half the range of each variable; samplers start at x0, or at a point drawn uniformly from the bounds.",
     ["inputs", "configurations"],
     "all boxes, popsizes, dimensions, starting points and sigmas",
     "Never inspected.",
     [COMMON, DE, CPSO, NA, CMA, VD, MC, HMC],
     [("lhs", COMMON + ":lhs"), ("standardize(x0)", CMA), ("xall[0] = x0", MC)],
     "runtime monitor: stratification check of first generations; pooled z-tests",
     "Exact check of x0 and strata on each run; distributional claims z-tested with false-alarm probability below 1e-8." + TRUST)

prop("C20", "Runs are covariant with the problem's units",
     "Rescaling individual variables by powers of two together with bounds, x0 and objective rescales the evaluated points bitwise (PSO, CPSO without competitivity, DE, NA, CMA-ES, VD-CMA, mcmc, and hmc with an exact gradient; xtol = 0), and translating the problem translates them up to round-off (for CMA-ES up to the choice of eigenvectors). "
     "Adding a constant to the objective and ftol, or applying a strictly increasing transformation with ftol disabled, leaves the evaluated points of unpenalized optimizers unchanged until one of the runs ends; adding a constant leaves mcmc chains unchanged.",
     ["inputs", "configurations"],
     "all problems, scales per variable, offsets, increasing transformations",
     "All tests use one symmetric box and one objective.",
     ALLOPT + [SHR, RND, PEN, MC, HMC],
     [("standardize", CMA), ("normalize", NA), ("comparison-only selection", COMMON), ("bounds-scaled stepsize", MC)],
     "metamorphic runtime monitor: traces of transformed problems compared",
     "Bitwise comparison for exact transformations, tolerance for translations over a few iterations." + TRUST)

prop("C21", "mcmc runs the Metropolis algorithm",
     "Each proposal of mcmc differs from the current sample only in the current block of max(1, int(perc*ndim)) coordinates (blocks cycling through all coordinates), by independent normal steps of standard deviation stepsize times half the range of each coordinate. "
     "It is accepted with probability min(1, exp(f(current)-f(proposal))), always when not uphill; the next sample is the proposal or the unchanged current sample. With 'Reject' proposals outside the bounds are refused without being evaluated.",
     ["inputs", "histories", "configurations"],
     "all targets, dimensions, perc, stepsizes, boxes",
     "One seeded end value.",
     [MC, REJ],
     [("block perturbation", MC), ("log_alpha test", MC), ("in_search_space", REJ)],
     "runtime monitor: chain law on recorded proposals; martingale tests of acceptances",
     "Deterministic parts are checked on each step; steps and acceptances are z-tested with false-alarm probability below 1e-8." + TRUST)

prop("C22", "hmc runs leapfrog trajectories with an exact Metropolis correction",
     "Each hmc proposal is the end of a leapfrog trajectory of fixed length and per-coordinate step stepsize times half the range, driven by the given jac (or by central differences of the objective with the given absolute step), from the current sample with independent standard normal momenta. "
     "It is accepted with probability min(1, exp(-change of total energy)); with 'Reject' proposals outside the bounds are refused. With jac the objective itself is evaluated only at the initial sample and at trajectory ends.",
     ["inputs", "histories", "configurations"],
     "all differentiable targets, dimensions, stepsizes, nleap, boxes, with and without jac",
     "One seeded end value without jac.",
     [HMC, REJ],
     [("leap-frog loop", HMC), ("numerical_gradient", HMC), ("log_alpha test", HMC)],
     "runtime monitor: second differences of recorded trajectories; energy replay; martingale tests",
     "Every trajectory is replayed from the recorded gradient calls; momenta and acceptances are tested statistically." + TRUST)

prop("C23", "The samplers leave the target distribution invariant",
     "Started from an exact draw of the density proportional to exp(-f) (restricted to the bounds under 'Reject'), the samples of mcmc and hmc after any number of iterations are distributed according to that same density.",
     ["inputs", "configurations"],
     "targets with known distribution (normal, Laplace, uniform, truncated), dimensions, perc, stepsizes, nleap",
     "No test looks at the distribution of samples.",
     [MC, HMC, REJ],
     [("Metropolis correction", MC), ("reversible leapfrog", HMC)],
     "statistical runtime monitor: thousands of exact-start chains, moment and rank tests",
     "Chains started from exact draws are exact draws at every step, so z-tests have exact levels (false-alarm probability below 1e-7)." + TRUST)

prop("C24", "Sampler results, histories and acceptance ratios are truthful",
     "mcmc and hmc return as x and fun the sample with the lowest value among all samples including the initial one, and so does every callback state for the samples so far. xall[k] is the sample delivered to the k-th callback and funall[k] exactly the objective's value there; "
     "states hold the prefixes and do not change later. accept_ratio is the number of accepted proposals divided by nit (from the second sample on).",
     ["inputs", "histories", "configurations"],
     "all targets, chain lengths, constraints, with and without histories and jac",
     "Only the final x of one chain is compared.",
     [MC, HMC],
     [("imin/fmin tracking", MC), ("n_accepted", HMC)],
     "runtime monitor: chain recorded through the callback vs result and histories",
     "Exact comparison on every step of the executed chains." + TRUST)

prop("C25", "The front ends and defaults are interchangeable",
     "minimize(..., method=m, options=o) and sample(..., method=m, options=o) give bitwise the run of calling the method's function directly with the same keywords; the default methods are 'de' and 'mcmc', options=None equals {} and documented default values can be spelled out. "
     "pso equals cpso with competitivity None or 0, workers 0 equals 1, and a backend name other than 'mpi' has no effect on serial runs.",
     ["configurations", "inputs"],
     "all methods, option sets and ways to spell the same call",
     "Each test uses one spelling.",
     [OH, SH, PSO, CPSO, DE, NA, CMA, VD, MC, HMC, "stochopy/optimize/__init__.py", "stochopy/sample/__init__.py"],
     [("_optimizer_map", OH), ("_sampler_map", SH), ("positional forwarding", PSO)],
     "differential runtime monitor: traces of equivalent calls compared bitwise",
     "Bitwise comparison between equivalent spellings; defaults are taken from the documentation, not from the signatures." + TRUST)

prop("C26", "Invalid arguments are rejected before any evaluation, boundary values accepted",
     "A non-callable objective, jac or callback, malformed bounds, x0 of wrong shape, a popsize or parameter outside its documented range, and unknown methods, strategies, updatings, options, constraints of optimizers or backends raise an exception before the objective is evaluated or the callback called, in every method that has the argument. "
     "The end points of the documented closed ranges are accepted.",
     ["inputs", "configurations"],
     "each argument of each method with values of wrong type, shape or range, and at the ends of its range",
     "No test passes an invalid argument.",
     [DE, CPSO, PSO, NA, CMA, VD, MC, HMC, COMMON],
     [("range checks", DE + ":minimize"), ("backend check", COMMON + ":optimizer")],
     "fault-injection runtime monitor: one invalid argument at a time, evaluations counted",
     "A table of invalid and extreme values per argument crossed with random valid remainders." + TRUST)

prop("C27", "An exception in user code ends the run cleanly and unchanged",
     "If the objective, jac or callback raises at its k-th call, the call to the library raises that very exception (same type and arguments; the same object in serial and threaded runs), a serial run makes no further calls to user code, "
     "and later runs in the process behave exactly as if the failed run had not happened.",
     ["fault_sequences", "configurations"],
     "every call index k of short runs, serial/threading/loky, all methods",
     "No test raises from user code.",
     [COMMON, DE, CPSO, NA, CMA, VD, MC, HMC],
     [("no handlers between user code and caller; Parallel as a context manager", COMMON + ":optimizer")],
     "fault injection at every call index; monitors on propagation and aftermath",
     "For each executed configuration every call index of the short run is enumerated." + TRUST, level="fault_enumeration")

prop("C28", "Benchmark functions compute their published formulas",
     "The benchmark functions equal their published formulas to round-off for any number of variables and any one-dimensional list, tuple or array of floats or integers, do not modify their argument, and take their published minimum at the published minimizer (up to the rounding of published constants) and nowhere a lower value.",
     ["inputs"],
     "all finite points over many magnitudes, dimensions and containers",
     "One point per function.",
     [BENCH],
     [("formulas", BENCH)],
     "runtime monitor: independent exact-summation reference on random inputs",
     "Compared with an independent scalar implementation using math.fsum." + TRUST, observe=["returned value"])

prop("C29", "Results behave as dictionaries with attribute access",
     "Result and state objects are dictionaries whose items can equally be read, written and deleted as attributes; reading an unknown attribute raises AttributeError; they survive copy, deepcopy and pickle with type and content; "
     "dir() lists the items and repr() shows every item except the histories; none of these operations changes anything else in the process.",
     ["inputs", "histories"],
     "all results of all methods and random sequences of item/attribute operations",
     "Tests read x only.",
     [BASE, OH, SH],
     [("BaseResult", BASE)],
     "runtime monitor: random operation sequences against a plain-dict model",
     "Model-based: each operation's outcome is compared with a plain dict." + TRUST, observe=["result objects"])

prop("C30", "Optimizers make bounded progress on easy problems",
     "On low-dimensional smooth unimodal problems with the optimum inside the bounds, each optimizer with standard parameters reaches a value orders of magnitude below the best of its first population within a fixed number of iterations in nearly every run, in every updating mode, constraint setting and at any location and scale of the box.",
     ["inputs", "configurations"],
     "seeds, locations, scales, 1 to 5 variables; success fraction thresholds calibrated with wide margins",
     "A few seeded runs.",
     ALLOPT + [SHR, RND, PEN],
     [("the algorithms", DE)],
     "statistical runtime monitor: success fractions over many seeds vs calibrated floors",
     "Bounded-progress restatement of convergence; floors are far below the observed fractions, so only gross loss of search ability is flagged." + TRUST)

prop("C31", "Runs do not corrupt each other when nested or concurrent",
     "When several runs execute concurrently in threads of one process, or an objective itself runs an optimizer or sampler, every run still reports real evaluations with their real values, the true best, and truthful evaluation and iteration counts.",
     ["schedules", "histories"],
     "interleavings of concurrent runs of all methods, nesting at any evaluation",
     "Tests run one thing at a time.",
     ALLOPT + [MC, HMC],
     [("no module-level state besides the generator", COMMON)],
     "stress runtime monitor: per-run invariants under concurrency and nesting",
     "Invariants of C01-C03 and C24 checked per run on real interleavings." + TRUST)

prop("C32", "The number type of the objective's values does not matter",
     "A run depends on the real values the objective returns and not on their type: Python and NumPy integers of any width and sign, booleans, floats of other widths and zero-dimensional arrays give the same evaluated points, "
     "callback sequence and result as floats of equal value, in every method, updating mode and kind of parallel call, and fun is reported as a real number; a gradient given as a list, tuple or other array gives the same hmc run as one given as a float array.",
     ["inputs", "configurations"],
     "16 scalar types and mixtures of types within one run, values near the ends of narrow types, all methods",
     "Test objectives return float64 only.",
     [COMMON, DE, CPSO, NA, CMA, VD, MC, HMC],
     [("values stored in float arrays; finite differences of values", COMMON + ":optimizer")],
     "differential runtime monitor: each run paired with its twin on floats of equal value",
     "The wrapper returns either the typed value or the float of exactly equal value; everything observable of both runs is compared bit for bit." + TRUST)

prop("C33", "A run leaves nothing behind in the process",
     "However a serial or threaded run ends (normally, by an exception in user code, or refused for an invalid option), afterwards the process has the threads, child processes, open files, working directory and files in it, warning filters, "
     "floating-point error modes, print options, Python random generator, signal handlers, environment and interpreter settings it had before (with process workers: all of this except joblib's own pool of workers); the run prints nothing; "
     "no user object (objective, callback, args, x0) or returned array is kept alive by the library, and repeated runs do not accumulate memory.",
     ["histories", "fault_sequences"],
     "all methods, ends and parallel settings of serial and threaded runs, some with process workers; lots of repeated runs",
     "No test looks at the process.",
     [COMMON, DE, CPSO, NA, CMA, VD, MC, HMC],
     [("no module-level state; Parallel as a context manager", COMMON + ":optimizer")],
     "runtime monitor: inventories of the process before and after, weak references, allocated-block counts over repeated runs",
     "Inventories come from the operating system and the interpreter; memory growth is judged only when every one of several lots of equal runs adds at least one block per run, after hundreds of runs." + TRUST)

prop("C34", "Budgets and tolerances only cut a run",
     "A seeded run with a smaller maxiter (any method, except CPSO with competitivity, whose restarts depend on maxiter) or a larger ftol is bitwise the beginning of the longer run: the same evaluated points in the same order, "
     "the same callbacks, and as result the longer run's state at the iteration where it ends. xtol does not change the points evaluated by PSO, CPSO, DE and NA nor where they stop, and in CMA-ES and VD-CMA only where they stop.",
     ["configurations", "histories"],
     "all methods, random configurations, cuts at every iteration including the first",
     "Tests use one budget and look at the end only.",
     ALLOPT + [MC, HMC],
     [("stop tests after selection", COMMON + ":selection_sync"), ("main loops", DE + ":de")],
     "metamorphic runtime monitor: shorter runs against the beginning of longer ones",
     "Both runs are recorded at the boundary and compared bitwise." + TRUST)

prop("C35", "Variables fixed by equal bounds stay at their value",
     "Where the lower and the upper bound of a variable are equal, that variable has exactly this value in every point at which the objective is evaluated (in hmc, except for the displacements of finite differences), in every callback population, state, history and result, "
     "for every method, with or without x0 (which has that value there) and constraints, for one, several or all variables; the other variables stay finite.",
     ["inputs", "configurations"],
     "fixed values of many magnitudes, any subset of the variables, all methods",
     "No test fixes a variable.",
     ALLOPT + [MC, HMC, SHR, RND],
     [("span mask", NA + ":na"), ("standardize", CMA + ":cmaes"), ("bounds as upper - lower factors", COMMON + ":lhs")],
     "runtime monitor on every evaluated point and delivered array",
     "Exact equality of coordinates; thousands of runs, millions of coordinates." + TRUST)

prop("C36", "CMA-ES and VD-CMA stop for numerical reasons exactly when they should",
     "A CMA-ES or VD-CMA run that has neither reached ftol nor maxiter ends with status -2..-8 after the first generation in which one of the published criteria holds, with a status whose criterion holds, and goes on otherwise (n variables, popsize lambda, coordinates where the box is [-1, 1], "
     "axes b_i d_i and standard deviations s_j = sigma sqrt(C_jj) of the current distribution, sigma_0 the initial step): NoEffectAxis (CMA-ES, axis number `nit mod n` in ascending order) 0.1 sigma d_i |b_i| < 1e-10 in every coordinate; NoEffectCoord 0.2 s_j < 1e-10 for some j; "
     "ConditionCov (CMA-ES) max d > 1e7 min d; EqualFunValues: the best values of the last int(10 + 30 n / lambda) generations differ by less than 1e-10; TolXUp s_j > 1e3 sigma_0 for some j; TolFun: after the second generation all values of this and best values of all generations differ by less than 1e-12; "
     "TolX: sigma |pc| and all s_j below 1e-11 sigma_0. When ftol is reached the status is 0 if the mean moved by at most xtol in these coordinates and 1 otherwise.",
     ["configurations", "histories"],
     "both methods, all ways a run can degenerate: tiny and huge steps, bad conditioning, flat and unbounded objectives, with and without 'Penalize'",
     "The tests never run into a numerical stop.",
     [CMA, VD, COMMON],
     [("converge", CMA + ":converge"), ("messages", COMMON + ":messages")],
     "runtime monitor: each criterion evaluated after each generation from the log and a reference model told the points",
     "Round-off decides within 0.1 percent of a threshold (a factor 3 for the short axes of covariance matrices of condition above 1e10); the monitor abstains there, and after generations which the reference cannot follow (ties, resolution of the coordinates)." + TRUST)
