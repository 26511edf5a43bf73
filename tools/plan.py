"""Budgets and descriptions of the checks (used by check.py and gen_manifest.py)."""
REAL = ["all solvers, manifolds, problems, Element/SmartSpace, SparseMatrix/NIST BLAS, randgen and Timer code of /repo, compiled from the working tree", "system BLAS/LAPACK/FFTW"]
STUB = ["operator new/delete (simulated heap: fill patterns, red zones, quarantine, failure injection)", "gettimeofday/clock_gettime/time/clock (simulated clock)", "rand/srand (simulated stream)", "standard output (memory file, /dev/full or closed)", "the user: problem callbacks, StopPtr and line-search input are simulated and inject the faults"]
ASSUME = ["BLAS/LAPACK/FFTW are deterministic and correct", "one thread (the library has no threads in this configuration)", "combinations the library reports as not implemented are discarded"]


def P(rule, quick, thorough, level="exploration", technique="", asan=0, note=""):
    return {"rule": rule, "level": level, "technique": technique, "note": note, "real": REAL, "stub": STUB, "assumptions": ASSUME,
            "quick": {"runs": quick, "secs": 45, "redo": 24},
            "thorough": {"runs": thorough, "secs": 600, "redo": 200, "asan": asan, "asan_secs": 200}}


T = "deterministic simulation with fault injection: "
PLAN = {
    "P01": P("Seeded solver runs (problem, manifold, parameter set, solver, options, start, restarts, cost faults).", 9000, 200000, technique=T + "invariant on every callback argument and result", asan=4000),
    "P02": P("Seeded runs of smooth solvers with transient NaN/inf/huge costs.", 20000, 200000, technique=T + "history check of accepted costs against the recorded callback history", asan=4000),
    "P03": P("Seeded runs with transient faults, crashes at a callback and restart from the last reported iterate.", 5000, 100000, technique=T + "crash/restart, liveness within a bounded number of iterations once faults stop", asan=2000),
    "P04": P("Seeded runs with NaN/inf costs at any positions, transient or for ever.", 25000, 200000, technique=T + "bounded termination under injected NaN/inf", asan=4000),
    "P05": P("Seeded runs with simulated durations per callback, stalls, wall clock steps and nested solvers; unbounded run and time-bounded run.", 5000, 100000, technique=T + "simulated clock, refinement of the bounded run by the unbounded one", asan=2000),
    "P06": P("Seeded runs with criteria, tolerances, iteration limits and StopPtr decision sequences.", 16000, 200000, technique=T + "stopping rules replayed over the recorded history", asan=3000),
    "P07": P("2-3 seeded solver runs as cooperating tasks: at chosen callbacks the scheduler switches to another run (own stacks), or executes another run inside the callback; own or shared manifold and problem; or all solvers built on one problem before the first runs. Compared with each run alone.", 5000, 100000, technique=T + "seeded interleaving of runs at callback boundaries, refinement of the solo runs"),
    "P08": P("A seeded run repeated under other heap and stack contents, clocks, callback durations, verbosity, broken standard output, fragmented heap and other runs before it.", 5000, 100000, technique=T + "differential replay of one scenario under varied environments, in one process and across processes"),
    "P09": P("Seeded runs interrupted by an exception at a chosen callback, then repeated with the same problem, manifold and initial iterate.", 6000, 100000, technique=T + "exception injection at every kind of callback, rerun compared with the undisturbed run, allocation balance", asan=2000),
    "P10": P("Seeded solver runs whose k-th allocation (and one, some or all following) fails in the constructor or the run, then a rerun; and seeded histories of Element operations with failing allocations.", 6000, 120000, technique=T + "allocation failure injection at any allocation, state compared with a plain-matrix model, rerun compared with the undisturbed run", asan=3000),
    "P11": P("Seeded histories of 10-60 operations on 6 elements (real, complex, product): construction, sharing, windows, every operator, raw writes, destruction, aliased operands; failing allocations.", 100000, 300000, technique=T + "history checked after every step against an executable reference model (plain matrices), allocation balance", asan=6000),
    "P12": P("Seeded histories mixing writes, copies, decomposition requests with any options and user fields.", 80000, 300000, technique=T + "history checked after every step: each field must reproduce the element's current value", asan=6000),
    "P13": P("Seeded runs, repeated runs of one object and cost faults; counters and series compared with the recorded callback history.", 9000, 200000, technique=T + "conservation between recorded history and reported statistics", asan=3000),
    "P14": P("Seeded histories of 4-60 operations on 8 sparse matrices (real/complex, duplicates, empty rows) with churn of up to 200 temporaries, printing to broken output, solver runs in between and failing allocations.", 60000, 1500000, technique=T + "history checked after every step against dense reference matrices, allocation balance, bounded handle table", asan=6000),
    "P15": P("Seeded sequences of SetParams calls (1-40 options in 1-15 maps, foreign names included) against assignments to the members; both solvers then run in the same faulty environment.", 8000, 150000, technique=T + "twin runs under one simulated environment (clock, faults, random stream)"),
    "P16": P("Seeded sequences of draws (numbers, elements, points of every manifold, gradient-sampling runs) with extreme outputs of rand() forced at chosen draws; each executed twice from the same state.", 9000, 250000, technique=T + "extreme generator outputs injected, replay from the same state compared bit for bit, range and feasibility invariants", asan=4000),
    "P17": P("Seeded runs; the simulated problem tags each point in f and verifies the tag in every derivative callback.", 9000, 200000, technique=T + "stamps in point data checked at each derivative callback", asan=3000),
    "P18": P("Seeded runs with 1-6 inspection calls (CheckParams, CheckGradHessian, MinMaxEigValHess, the manifolds' Check* diagnostics, Print, getters) before the solver exists, before Run, in StopPtr, in callbacks and after Run, on possibly broken standard output; compared with the run without them.", 6000, 120000, technique=T + "inspection calls scheduled at any callback, refinement of the inspected run by the undisturbed run", asan=3000),
    "P19": P("Seeded histories of 8-50 manifold operations on pools of 4 points, 8 tangent vectors and 3 retraction steps (copies sharing memory, rebuilt points, writes, scaled and combined vectors) with failing allocations; 16 manifold/problem worlds with their parameter sets and representations.", 60000, 200000, technique=T + "allocation failures injected into operation histories; every result compared with the operation on fresh copies in a freshly built world, identities checked in every state reached", asan=3000),
    "P20": P("Seeded histories of 8-50 evaluations, copies, writes and retractions on the same pools with failing allocations; all problem classes.", 60000, 200000, technique=T + "allocation failures injected into evaluation histories; every result compared with a fresh evaluation, derivatives compared with differences of cost and gradient in every state reached", asan=3000),
}

NA = {
    "N03": "Pure functions of their arguments, without environment or history.",
    "N04": "The interfaces need Matlab, Julia or a Python build that this sandbox and the repository's build do not have.",
}
