HEAD = r"""
# Runtime monitoring of stochopy

stochopy is a small NumPy library: six stochastic optimizers (CMA-ES, VD-CMA, PSO, CPSO, DE, NA) and two samplers (mcmc,
hmc) behind two front ends, with serial, threaded, multi-process (joblib) and MPI evaluation of populations. Its guarantees
concern what every run does with the user's objective and what it reports. Unit tests compare a few seeded end results; here
the real code is run under recorders placed at its boundary and oracles judge each execution.

DESIGN.md, properties.jsonl and MANIFEST.json are written by `tools/gen.py` and `tools/design.py` from `tools/props_table.py`,
`tools/design_oracles.py` and `tools/design_text.py`.

## The machinery

* `vf/trace.py`: recorders. The objective, jac and callback handed to the library are wrappers which log every call (point, value,
  thread, protocol violations) and deep-copy what callbacks receive. Nothing inside the library is hooked, so no instrumentation commit
  in /repo is needed and refactorings of the code cannot blind or confuse the monitors: everything is judged by what passes the boundary.
* `vf/configs.py`, `vf/objectives.py`: random configurations (method, dimension 1 to 40 and rarely to 110, boxes from 1e-12 to 1e12, populations from the
  smallest legal to 130 (rarely 600), 1 to 400 iterations (rarely 1500), all options) and pure objectives (smooth, discontinuous, plateaus, ties, +inf regions, integers,
  values unrelated to position, optimum inside/on/outside the box). Each case is a JSON dict derived from (VERIF_SEED, property, index): runs
  are reproducible and a violation writes its case as a replay file (`check.sh ID --replay FILE`).
* `vf/props/cNN.py`: one monitor per property: `cases`, `run_case`, and `finish` for verdicts over pooled observations (statistics).
* `vf/harness.py`: runs the cases in 8 processes, catches exceptions (an exception of a valid run is a violation), watchdogs (a hang is inconclusive,
  except where the recorder's evaluation budget proves it), pools data, writes the evidence, and ends with one of three verdicts: violated
  (exit 1), held on what was observed (0), inconclusive (2: watchdog, or fewer observations than the monitor's minima, i.e. the
  monitor was blind).
* `vf/refcma.py`: independent reference models of CMA-ES, VD-CMA and the boundary penalty, which are told the observed points; `vf/cmacheck.py`
  follows whole runs with them. PSO, CPSO, DE, NA, mcmc and hmc have their oracles in the monitors of their properties.
* `vf/stats.py` (pooled tests), `vf/digest.py` (bitwise digests of a run), `vf/replay.py` (`--replay`), `vf/worker.py` (one process of the pool),
  `vf/mpi_worker.py` (ranks started by mpiexec for C08 and C30).
* Statistical verdicts use |z| limits around 6 after pooling (false alarm probability below 1e-8 per test, below 1e-5 per check), and seeds
  drawn so that no case shares its random numbers with another.
* Checks import the library from /repo's working tree with a fresh bytecode cache (`PYTHONPYCACHEPREFIX`), so a changed source is always what is run.

Quick tier: 5 to 40 s per property on 8 cores. Thorough tier: about 10 times the cases, 1 to 5 min per property.

Sanitizers and race detectors: the repository has no compiled code and no threads of its own; the only concurrency is joblib/MPI calling the
user's objective. Compiler sanitizers have nothing to instrument; races are covered by schedule perturbation (C07, C08, C31) and the
"leaves nothing behind" inventories (C33).
"""

TAIL = r"""
## Genuine defects found

All were repaired by one small `fix:` commit each and are listed in `known_findings.txt`. None is left as a known finding.
The most consequential: samplers' 'Reject' never accepted anything; hmc with a user's jac recursed for ever; options, x0 and stepsize were modified in
place; integer-valued objectives truncated later values; 'immediate' updating forgot that ftol had been reached; maxiter=1 ran two iterations; MPI
processes without a seed disagreed and returned wrong solutions; the boundary penalty never grew at lower bounds; NA left its Voronoi cells
with fixed variables; CPSO's restart sentinel 1e30 could become the best value; DE's histories held rejected trials.

## Known limits of the library that are not claimed

* Objectives returning NaN, modifying x in place, keeping references to x, or returning one reused buffer.
* x0 outside the bounds; array-valued `sigma`; populations below the minimum of a DE strategy; VD-CMA with popsize 1.
* CMA-ES and VD-CMA report the best of the last generation (as documented by the tests), and status -1 wins over other causes at it == maxiter.
* `lhs` samples the lower half of each stratum (pinned by the tests); hmc makes nleap + 1 position updates and scales its step by half the range;
  accept_ratio is 1.0 in the first state; the CPSO restart threshold depends on the units of the problem.
* `verbosity` outside [0, 1] is not validated (above 1, `return_all` fails with a ValueError after the first population; below 0 acts as 0).
* An unknown `constraints` of a sampler is ignored; constant unknown backend names are ignored in serial runs; maxiter=0 is not rejected.
* An exception on one MPI rank leaves the others waiting.
* mcmc accepts moves from inf to inf. With 'Penalize', objectives with infinite values have no defined penalty.
* NA's cells shrink to the resolution of floats when a single cell gets hundreds of models (coinciding coordinates).
* Diverging unconstrained PSO/DE populations overflow; judged up to that point only.
* VD-CMA's learning rates are not positive for n <= 5, and the penalty's growth uses sqrt(n/mueff) where cmaes.m differs; claimed as implemented
  where the publication leaves it open.

## False alarms met and what was done

* C01/C02 (thorough): unconstrained diverging swarms; positions beyond the floats are outside the claim (`trace.overflowed`).
* C13: equal values at different places make the best member ambiguous: the monitor stops judging that run.
* C17: with fewer than two unclipped coordinates the rotation left open cannot be checked: abstains.
* Pooled statistics: cases with seed 0 share their random numbers and so do not enter pooled tests (`Obs.repeated`).
* C32 (thorough): the wrapper's own int64 conversion overflowed for diverging runs: values are clipped.
* C33: NumPy's and the interpreter's caches fill for hundreds of runs; growth must persist afterwards. Worker threads and pipes of joblib need a moment
  (and a garbage collection) to go.
* C04 (thorough): an integer objective far away overflowed the conversion to floats in the harness: clipped at 2**60.
* C22: the monitor's own stencil centre lost digits for many variables: computed accurately; a difference step far above the range of a variable (thorough)
  moves the start of a trajectory by round-off of that step: allowed for.
* C25 (one case) turned out to be a genuine defect: the penalty's log of a strided view (3062aa3).

## Quietness on edits that keep the behaviour

Two extensive rewrites of all modules (helpers extracted, loops vectorized or unrolled, statements reordered, renamed variables, other but
equal NumPy calls with the same random draws) were made independently of the monitors; the existing tests pass on them and all checks stay quiet in the
quick tier. Monitors compare bitwise only runs of the same code, or values for which the library promises identity; reference models are compared with round-off
tolerances that grow with the number of updates.

## Mutation experiment

Besides the planted bugs, 4980 one-place mutants of `stochopy/` were generated (operators, comparisons, constants, names, removed statements, swapped
arguments). A random 1938 were run against the repository's own tests: 915 survive them. Cut-down versions of the checks (a few seconds each, without C08
and C30) caught 782 of the 915. The other 133 were read one by one. Most are equivalent: `__all__`, redundant copies, comparisons that differ with probability
zero, workers 0 against 1, initial contents of arrays that are overwritten, early errors where the call fails anyway. Those that are not equivalent led to new
workloads (C05 exact-equality reruns, C17/C18 histories of the penalty, C25 advertised numeric defaults, C08 uneven splits, C36 as a whole property), and the full
quick checks now catch them, with these exceptions: the exponent in the growth of the penalty weight for mueff > 5 n (a state which needs
enormous populations and does not otherwise occur), and the handling of exact ties in `updating="immediate"`, which is not claimed.

## Planted bugs (@NSEEDED@)

Each is caught by the quick check of the property it breaks (seed 1; those whose first version was missed led to the strengthening described in
the history of /verif). 

| id | property | needs | breaks |
|---|---|---|---|
@SEEDED@
"""
