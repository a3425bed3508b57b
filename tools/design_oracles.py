"""Hand-written part of DESIGN.md per property: what decides it, and what bounds it."""
ORACLE = {
"C01": "Every call of the objective is logged at the boundary (point bitwise, value). A reported (x, fun) is held against the log by hashing the bytes of x; fun must be one of the values logged for x. For CMA-ES/VD-CMA x is compared up to round-off of the (un)standardization. Under 'Penalize' a larger fun is accepted only where x lies on the boundary. Diverging unconstrained swarms whose positions leave the floats are judged up to the overflow only.",
"C02": "The running minimum of the logged values (per generation for CMA-ES/VD-CMA) is recomputed at every callback and at the end. Objectives include +inf regions, huge offsets (the old 1e30 sentinel), ties and values unrelated to position. CPSO cases are made to restart.",
"C03": "Counting at the client boundary: calls per iteration between callbacks, nfev and nit of each state, the number of callbacks, the same without a callback; budget enforcement is the recorder itself, which aborts a run asking for more than allowed.",
"C04": "Interval tests with a tolerance of a few ulps of the bounds on every point seen anywhere. Hostile geometry: optimum outside, faces, corners, inertia 0, collapsed swarms, boxes of 1e-12 to 1e12, fixed variables.",
"C05": "The logged values and the callback populations decide independently when the run had to stop and with which status; status 0/1 are distinguished by recomputing the move of the best solution. Near-ties at the tolerance make the monitor abstain from the distinction, not from the rest.",
"C06": "Digests of all evaluated points, callbacks and results, compared across repetitions with perturbed generator state (incl. a cached Gaussian), interleaved other runs, seed types, fresh interpreters with other hash seeds; seeds differing by 1, 2, 256, 65536 must differ (detects truncated seeds); unseeded runs are held against np.random.seed.",
"C07": "Parallel runs under injected per-candidate delays are compared with the serial deferred run bitwise; start/finish events give the number in flight, overlaps and reorderings. Evidence counts distinct event orders. ThreadSanitizer is of no use here: all library code runs under the GIL in one thread; the only concurrent code is the user's objective.",
"C08": "Real mpirun launches (1 to 6 processes, different prior random states, rank-dependent delays); each rank writes its log, and an offline checker compares ranks with each other, with the serial run, and counts each candidate exactly once over all ranks. A watchdog turns a hang into a verdict only after the same launch hung twice with a generous limit.",
"C09": "Rows of xall/funall are recomputed from the log of evaluations (greedy replay for DE) and compared bitwise, or to round-off where coordinates pass through standardization; states are deep-copied at delivery and compared with the live objects after the run (aliasing).",
"C10": "Metamorphic: all combinations of return_all, verbosity and callback against one reference, bitwise on evaluations and results.",
"C11": "Deep copies of all arguments before, comparison after; np.shares_memory between x0 and everything returned; the same run with representations of equal value bitwise.",
"C12": "Type, shape, finiteness and identity checks on every call of user code and on every state and result.",
"C13": "Exact replay: each trial must be explained by some tuple of members (enumeration of all tuples; a meet-in-the-middle table for large populations) and a non-empty crossover mask; member choice, mask and replacement draws are pooled and z-tested (|z| limit 6 after Bonferroni). Undecidable geometry (ties, collapsed populations) is counted as unresolved, never judged.",
"C14": "Per-component envelope of w*v + c1*r1*(p-x) + c2*r2*(g-x) with r in [0,1] given the replayed bests; where both terms are identifiable r1, r2 are recovered and tested for uniformity and independence; the shrink factor is recomputed.",
"C15": "Two designs make the restarted set observable from outside: 'still' swarms, where only restarted particles can move, and 'moving' ones, where the velocity law must explain all the others. The threshold and the number are recomputed from the published formula; decisions within round-off of the threshold abstain.",
"C16": "Brute-force Voronoi assignment of each new sample against all previous samples and exact cell walls along each axis (bisecting planes); fractions between the walls are pooled and tested for uniformity; the counts per cell are exact. Runs reach 2800 models.",
"C17": "A reference implementation of the published algorithm is told the observed points, regenerates the normal numbers from the seed and must reproduce the next generation up to the orthogonal freedom of the matrix square root (compared through invariants: norms and inner products in the metric of C, plus mean and sigma). Penalty: an independent implementation of the published rule.",
"C18": "As C17 with the VD-CMA update; here D and v fix the square root, so points are compared directly.",
"C19": "x0 compared bitwise; strata counted exactly; pairings, means and starts pooled and z-tested.",
"C20": "Power-of-two rescaling must be bitwise covariant, exact shifts and increasing maps bitwise invariant until one run ends; translation up to accumulated round-off in the first iterations only.",
"C21": "The chain is replayed from the log: block of each proposal, outcome of each step; z-tests on step sizes, correlations and acceptance frequencies in bins of delta f.",
"C22": "Trajectories are replayed from the recorded gradient points by their second differences, momenta and energies recovered; acceptances in bins of delta H. The number of position updates is not prescribed (the code makes nleap + 1).",
"C23": "Exact starts: the stationary law is tested directly with paired statistics on 1e5 chains (no burn-in argument is needed), per batch and pooled.",
"C24": "Samples delivered to the callback are matched with the log; best, histories and acceptance recomputed.",
"C25": "Pairs declared equivalent by the documentation, bitwise.",
"C26": "Single-fault injection over the argument space with call counting; boundary values must run.",
"C27": "Fault injection at every call index of short runs (all indices, serial and threads; sampled for loky); identity of the exception, absence of later calls, bitwise equality of later runs.",
"C28": "Independent reference in exact rationals or math.fsum; relative error limit in ulps of the sum of magnitudes.",
"C29": "Model-based random sequences against a plain dict, between two inventories of the process.",
"C30": "Statistical progress floors (median and 80% quantile by group), calibrated on the repaired tree with wide margins (observed medians exceed the floors by at least two decades). This is a safety net for gross loss of search ability; the laws are decided by C13 to C18.",
"C31": "Real interleavings: switch interval 1e-5 s, yields inside objectives, nesting to depth 2 from objective and callback; each run is judged by its own log.",
"C32": "Differential: the wrapper returns the typed value in one run and the float of exactly equal value in its twin; everything observable is compared bitwise. Types within one run may vary by point.",
"C33": "Inventories of the process from the operating system (/proc) and interpreter around each run, starting from default and from non-default settings; weak references to user objects and returned arrays; allocated-block counts over lots of equal runs, judged only when the growth persists after hundreds of runs (the interpreter's caches fill more and more slowly).",
"C34": "Metamorphic: shorter runs against the beginning of longer ones, bitwise in points, states and result.",
"C35": "Exact equality of the fixed coordinates in every array that passes the boundary, finiteness of the rest.",
"C36": "The reference CMA-ES and VD-CMA of C17 and C18 follow the run from the observed points and values and supply sigma, C, its axes and the evolution path after each generation; the criteria over values need the log only. Going on although a criterion clearly holds, and ending for one that clearly does not, are violations; within round-off of a threshold the monitor abstains. The order of the criteria is not prescribed.",
}
