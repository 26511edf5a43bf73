#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x.strip(),"meaning":"state the property depends on","where":files[0]} for x in state.split(",")]
    if observe: a["observe_at"]=[x.strip() for x in observe.split(",")]
    if hook is not None: a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

S="Solvers/"; M="Manifolds/"; O="Others/"
prop("P01","Every iterate a solver evaluates or returns lies on the manifold",
 "In every run of every solver on every manifold and parameter set, each point handed to the user's cost/gradient/Hessian callbacks, to the user's stopping function or returned by GetXopt lies on the manifold (orthonormal columns, unit norm, symmetric positive definite, or full factor rank, component by component for product manifolds) up to rounding error, provided the initial iterate does. "
 "This holds however long the run is, when the run is restarted from its own result, and when the cost values returned by the callback are perturbed by transient faults; tangent vectors passed to the Hessian callback are finite. Excluded are trial points whose coordinates leave the floating-point range (exponential retraction of positive definite matrices under huge steps), points next to lower rank on fixed-rank manifolds, where the projection equations are singular, and subgradient solvers asked for more accuracy than 1e-8; after a Cayley step longer than 100 the tolerance is 1e-6.",
 ["inputs","configurations","histories","fault_sequences"],
 "All manifolds and ChooseParamsSet variants, solvers, line searches, feasible initial iterates, run lengths, restarts and transient cost-value faults.",
 "The driver only looks at the final gradient norm of 617 fixed runs; an iterate that drifts off the manifold still reaches a small gradient of the extended cost.",
 ["Manifolds/Stiefel.cpp","Manifolds/Sphere.cpp","Manifolds/Grassmann.cpp","Manifolds/FixedRankE.cpp","Manifolds/FixedRankQ2F.cpp","Manifolds/SPDManifold.cpp","Manifolds/MultiManifolds.cpp","Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp"],
 [("Retraction (per manifold and parameter set)",M+"*::Retraction"),("candidate evaluation",S+"SolversSMLS::h, SolversSMTR::Run"),("product retraction",M+"MultiManifolds::Retraction")],
 observe="Problem::f / EucGrad / EucHessianEta arguments, StopPtr argument, Solvers::GetXopt")
prop("P02","Descent solvers are monotone and report the cost of the point they return",
 "For every smooth solver, the cost never increases from one accepted iterate to the next in monotone settings (and never exceeds the maximum of the last Num_pre_funs accepted costs for nonmonotone line search), until the relative gradient norm falls below the documented Accuracy switch, apart from increases of rounding size; so the returned cost never exceeds the initial one. "
 "Getfinalfun equals the cost of GetXopt and Getnormgf equals the gradient norm there, even when transient callback faults return NaN, infinite or huge costs at trial points. "
 "A step that the Armijo, Wolfe or strong Wolfe line search reports as successful satisfies the sufficient-decrease condition for the configured LS_alpha, one of the exact line search does not increase the cost, and a failed line search ends the run at the previous iterate.",
 ["inputs","configurations","histories","fault_sequences"],
 "All smooth solvers, line searches (user-supplied steps with the safeguard included) and parameters, problems, initial iterates and transient cost-fault sequences.",
 "The driver checks only that the last gradient norm is small; a run that accepts uphill steps or mis-reports its result still converges on the sampled cases.",
 ["Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp","Solvers/SolversSM.cpp","Solvers/Solvers.cpp"],
 [("line searches",S+"SolversSMLS::LinesearchArmijo/Wolfe/StrongWolfe/Exact"),("trust-region acceptance",S+"SolversSMTR::Run"),("result accessors",S+"Solvers::GetXopt/Getfinalfun")],
 observe="SolversSM accessors, StopPtr calls, Problem::f history")
prop("P03","Solvers converge within bounded iterations once faults stop, also after crashes",
 "On the library's well-conditioned problems every applicable solver configuration reaches its gradient tolerance within its iteration budget from any initial iterate; a bounded number of transient callback faults (huge trial costs, stalls, clock jumps) delays this by a bounded number of iterations, not for ever, and after a NaN or infinite cost, which ends the run with a message, a run restarted from the returned iterate reaches it. "
 "When a run is killed at any callback and a fresh solver is started from the last iterate it had reported, the combined runs reach the tolerance as well.",
 ["inputs","configurations","crash_points","fault_sequences","histories"],
 "Problem instances, initial iterates, solver configurations, crash points and finite fault sequences, followed by a fault-free suffix of bounded length.",
 "The driver runs each combination once from one seed without faults, interruption or restart, with one set of parameters.",
 ["Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp","Solvers/LRBFGS.cpp","Solvers/LRTRSR1.cpp","Solvers/RTRNewton.cpp","Solvers/ManPG.cpp","Solvers/RGS.cpp"],
 [("main loops",S+"SolversSMLS::Run, SolversSMTR::Run, SolversNSMSubLS::Run, ManPG::Run, AManPG::Run"),("search directions",S+"*::GetSearchDir"),("quasi-Newton updates",S+"*::UpdateData")],
 state="x1,gf1,H/B approximations, trust-region radius, limited-memory pairs",
 observe="Getnormgf/Getnormgfgf0/Getnormnd, GetIter")
prop("P04","NaN or infinite callback values never hang a solver or poison its result",
 "Whatever NaN or infinite values the cost callback returns, at any trial evaluations, transiently or for ever, every solver terminates within a number of callbacks bounded by its iteration and line-search limits, without crashing. "
 "The point it returns is finite and feasible, and the reported cost is finite and is the cost of that point, provided the cost of the initial iterate was finite.",
 ["fault_sequences","configurations","inputs"],
 "All solvers and line searches, all positions and durations of NaN/+Inf/-Inf cost values after the initial evaluation.",
 "No test ever returns a NaN; the guarding code (isnan tests, break) is never executed by the suite.",
 ["Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp","Solvers/SolversNSMSubLS.cpp","Solvers/SolversNSMPGLS.cpp","Solvers/ManPG.cpp","Solvers/AManPG.cpp"],
 [("NaN guards",S+"SolversSMLS::Run, SolversSMTR::Run"),("line-search loops",S+"SolversSMLS::LinesearchArmijo/Wolfe/StrongWolfe/Exact/Zoom, SolversNSMSubLS::LinesearchWolfe")],
 observe="callback counter, GetXopt, Getfinalfun")
prop("P05","TimeBound and reported times follow elapsed time under any clock behaviour",
 "Every solver stops at the first iteration whose elapsed time since its own Run began exceeds TimeBound (never earlier), and the iterations it does perform are those of the unbounded run. "
 "GettimeSeries is non-negative and non-decreasing and, with GetComTime, reports the elapsed time of that solver's own run. "
 "This holds when callbacks stall, when the wall clock is stepped forwards or backwards during the run, and when other solvers run inside the callbacks.",
 ["schedules","fault_sequences","configurations","histories"],
 "All assignments of duration to callbacks, all wall-clock steps, all TimeBounds, nested runs, all solvers.",
 "The tests never set TimeBound, never look at times, and cannot control the clock.",
 ["Others/Timer.cpp","Solvers/Solvers.cpp","Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp","Solvers/SolversSM.cpp","Solvers/SolversNSM.cpp"],
 [("getTickCount",O+"Timer.cpp"),("starttime",S+"Solvers.cpp"),("IsStopped",S+"SolversSM::IsStopped, SolversNSM::IsStopped")],
 state="starttime, timeSeries, ComTime", observe="GettimeSeries, GetComTime, GetIter")
prop("P06","Stopping rules are obeyed exactly and a claimed tolerance is true",
 "A solver performs at most Max_Iteration iterations and at least min(Min_Iteration, Max_Iteration) unless its line search fails; it stops at the first iterate (not before Min_Iteration) at which the user's StopPtr returns true, or, without one, at which the chosen Stop_Criterion is satisfied; it never stops for another reason that it does not report (a failed line search, a zero gradient, a NaN and a vanishing sampling radius are reported). "
 "If it stops because of the tolerance, the criterion recomputed from scratch at GetXopt is satisfied (the relative change of the cost is not claimed for AManPG and the subgradient solvers, nor for the first step of the trust-region solvers; subgradient solvers consider the criterion only once their radius has reached its minimum). "
 "StopPtr receives the current accepted iterate with its own cost history and gradient norms.",
 ["configurations","inputs","histories"],
 "All solvers, Stop_Criterion values, Tolerance, Min/Max_Iteration and StopPtr decision sequences.",
 "The driver uses one criterion and one tolerance and never sets Min_Iteration or StopPtr.",
 ["Solvers/SolversSM.cpp","Solvers/SolversNSM.cpp","Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp","Solvers/SolversNSMSubLS.cpp","Solvers/ManPG.cpp","Solvers/AManPG.cpp"],
 [("IsStopped",S+"SolversSM::IsStopped, SolversNSM::IsStopped"),("loop guards",S+"*::Run")],
 observe="GetIter, StopPtr call history, Getnormgf, Getnormgfgf0, GetfunSeries")
prop("P07","Interleaved and nested solver runs do not disturb each other",
 "When several solver objects on their own problems run interleaved at callback boundaries (one inside another's callback, or as cooperating tasks, or constructed together on one problem and run in turn), sharing manifold and problem objects or not, each run evaluates exactly the same sequence of points and returns exactly the same result as when it runs alone. "
 "No run's time limit, history or statistics are influenced by the other runs.",
 ["schedules","programs","configurations"],
 "All interleavings of two or three solver runs at callback boundaries, nesting included.",
 "Each test creates one solver, runs it to the end and destroys it; no two solvers are ever active at once.",
 ["Solvers/Solvers.cpp","Solvers/SolversSMTR.cpp","Manifolds/Manifold.cpp","Manifolds/MultiManifolds.cpp","Others/Timer.cpp","Others/MinPNormConHull.cpp"],
 [("per-solver state vs globals",S+"Solvers.h, "+S+"Solvers.cpp"),("manifold flags",M+"Manifold.cpp HasHHR/IsIntrApproach")],
 state="starttime, Manifold::HasHHR, IsIntrApproach, Problem::UseGrad/UseHess", observe="callback argument sequence, solver accessors")
prop("P08","A run is a function of its inputs only",
 "Running the same solver configuration on the same problem and initial iterate with the same random seed gives bit-identical iterates, costs and statistics, whatever the contents of fresh heap or stack memory, the clock, the verbosity level, the health of standard output, or the runs made before it with other objects in the same process. "
 "In particular neither a result nor the printed text (times apart) depends on uninitialised memory.",
 ["programs","histories","configurations","fault_sequences"],
 "All solvers, manifolds and problems; all heap fill patterns, clock readings, verbosity levels, failing output, preceding histories.",
 "Tests run in one process image with mostly zero-filled fresh memory and fixed order; they cannot vary memory content, clock or output health.",
 ["Manifolds/SmartSpace.cpp","Manifolds/Element.cpp","Solvers/SolversSMLS.cpp","Solvers/LRBFGS.cpp","Solvers/LRTRSR1.cpp","Solvers/ManPG.cpp","Solvers/SolversNSMSubLS.cpp"],
 [("memory initialisation",M+"SmartSpace::NewMemory"),("solver state reset",S+"*::Run, Initialization"),("SetDefaultParams",S+"*::SetDefaultParams")],
 observe="callback argument bit patterns, accessors")
prop("P09","An exception from a callback leaves every user object reusable",
 "When a user callback throws at any point of any run, the exception propagates out of Run unchanged; the user's initial iterate, manifold and problem objects are as they were before the run; no memory is leaked once the solver is destroyed. "
 "A new run using the same manifold, problem and initial iterate then behaves exactly as if the interrupted run had never happened.",
 ["crash_points","configurations","programs"],
 "Every callback occurrence of every run of every solver, manifold and parameter set.",
 "No test throws; exception paths are never executed.",
 ["Manifolds/Manifold.cpp","Manifolds/MultiManifolds.cpp","Manifolds/Element.cpp","Solvers/Solvers.cpp","Solvers/LRTRSR1.cpp","Problems/Problem.cpp"],
 [("object ownership",S+"*::~*, DeleteVectors"),("temporary flags",M+"Manifold.cpp, "+M+"MultiManifolds.cpp")],
 observe="what Run throws, live allocation count, a rerun's callback sequence")
prop("P10","Failed allocations are reported, atomic for Elements, and never corrupt memory",
 "If any memory allocation (one, several in a row, or all following ones) fails inside an Element or SmartSpace operation, std::bad_alloc reaches the caller, every Element that the operation does not write still has its old value, the written one has its old or its new value, every object stays usable and destructible, and nothing is freed twice or, except by the work arrays of matrix decompositions, leaked. "
 "If any allocation fails inside a solver's constructor or run, std::bad_alloc reaches the caller, the user's initial iterate, manifold settings and problem are unchanged, and a rerun gives the result of an undisturbed run.",
 ["fault_sequences","crash_points","programs"],
 "Every allocation index of generated Element programs and solver runs.",
 "No test makes an allocation fail.",
 ["Manifolds/SmartSpace.cpp","Manifolds/Element.cpp","Solvers/*.cpp"],
 [("NewMemory",M+"SmartSpace.cpp"),("copy on write",M+"SmartSpace::CopyOnWrite"),("element groups",M+"Element.cpp")],
 state="Space pointer and sharedtimes counter", observe="exceptions, element contents, live allocation count")
prop("P11","Elements have value semantics under every history of sharing and writing",
 "Copies, assignments, submatrices, transposes, components of product elements and arithmetic results behave as independent values: writing through one Element never changes any other Element that shared its buffer. "
 "Every arithmetic, concatenation, reshaping and submatrix operation gives the value of the same operation on plain matrices (real and complex), and aliasing of operands does not change the result. A component of a product element is a window into the product: it has the product's memory, and a write through it (after the product itself was made writable) changes the product and nothing else. "
 "Printing shows the element's own numbers. Buffers are freed exactly once, when the last sharer dies.",
 ["histories","programs","inputs"],
 "All sequences of Element construction, copying, grouping, writing (operators, raw write access, submatrix assignment) and destruction over real, complex and product elements.",
 "TestElement prints values without asserting; sharing histories of length more than two do not occur in the suite.",
 ["Manifolds/SmartSpace.cpp","Manifolds/Element.cpp","Manifolds/SmartSpace.h","Manifolds/Element.h"],
 [("reference counting and copy on write",M+"SmartSpace.cpp"),("element operators",M+"Element.cpp")],
 state="Space, sharedtimes, elements/types/powsintev arrays", observe="ObtainReadData of every live Element after every step")
prop("P12","Derived data cached in an Element is never stale",
 "Decompositions and user fields attached to an Element (Householder QR, LQ, SVD, eigen and Cholesky factors, logarithm, AddToFields entries) always belong to the Element's current value: after any write through any public writing operation they are gone or recomputed, and requesting a decomposition always gives factors that reproduce the current value for the requested options (fields that the user explicitly copies onto another value with CopyFieldsTo excepted; eigenvalue decompositions are requested for Hermitian matrices). "
 "Copies carry the fields of the value they copy, and changing a copy does not affect the fields of the original.",
 ["histories","programs","inputs"],
 "All interleavings of writes, copies, decomposition requests with any options and field insertions/removals.",
 "The suite never writes to an Element after requesting a decomposition of it.",
 ["Manifolds/Element.cpp","Manifolds/Element.h","Manifolds/SmartSpace.cpp"],
 [("Fields map",M+"Element.cpp AddToFields/FieldsExist/RemoveAllFromFields/CopyFieldsTo"),("decompositions",M+"Element.cpp HHRDecom/QRDecom/SVDDecom/EigenDecomSym/CholDecom/SchurForm")],
 state="Element::Fields", observe="Field(), FieldsExist(), decomposition results")
prop("P13","Reported statistics and series agree with what actually happened",
 "After any run Getnf and Getng, and for the Newton solvers GetnH, count the cost, gradient and Hessian evaluations that were requested, within the run, from the problem; GetIter is the number of iterations, the function, gradient, time and length series have GetIter+1 entries whose last entries equal the reported final values (the direction series only of the subgradient solvers), and, for line-search solvers, entry k is the value at the k-th iterate. "
 "Counts and series belong to the last Run only.",
 ["histories","configurations","fault_sequences"],
 "All solvers, problems, stopping reasons, histories of repeated runs and transient faults.",
 "The suite never reads the counters or the series.",
 ["Solvers/Solvers.cpp","Solvers/SolversSM.cpp","Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp","Solvers/SolversNSM.cpp","Solvers/ManPG.cpp","Solvers/AManPG.cpp"],
 [("counters",S+"*::Run nf/ng/nH/nR/nV"),("series",S+"SolversSM::funSeries,gradSeries; Solvers::timeSeries,lengthSeries")],
 observe="accessors versus recorded callback history")
prop("P14","Sparse-matrix handles stay independent over any create/use/destroy history",
 "Any sequence of creating, multiplying by and destroying SparseMatrix objects (real and complex, several alive at once, handles reused) gives for each product the product with that object's own entries in the documented transpose/side form, and destroying one object never affects another. "
 "Destroyed handles are released, so the table does not grow beyond the largest number of matrices alive at once, and a construction or product that fails for lack of memory throws std::bad_alloc, leaks nothing and leaves the other matrices as they were.",
 ["histories","programs","inputs"],
 "All histories of construction, multiplication and destruction of sparse matrices, duplicates and empty rows included.",
 "Each test creates one or two sparse matrices and never destroys one while another is used.",
 ["Others/SparseMatrix.cpp","Others/SparseBLAS/nist_spblas.cpp","Others/SparseMatrix.h","Manifolds/Element.cpp"],
 [("handle table",O+"SparseBLAS/nist_spblas.cpp Table, Table_active_matrices"),("wrapper",O+"SparseMatrix.cpp"),("products",M+"Element.cpp operator*")],
 state="global handle table", observe="product values")
prop("P15","Setting options by name is the same as setting the members",
 "For every solver and every option name, SetParams with any in-range value configures the solver exactly as assigning the public member does: the two solvers then perform identical runs. "
 "Options not named keep their defaults, the order of names in the map does not matter, and SetParams itself changes nothing else. A manifold whose parameter set or Householder option is chosen by name behaves as one on which the member function was called.",
 ["configurations","programs"],
 "All solvers, option names and in-range values, singly and in combination; all parameter sets of the manifolds that can be chosen by name.",
 "The C++ driver never calls SetParams (only the Matlab/Julia bindings do).",
 ["Solvers/Solvers.cpp","Solvers/SolversSM.cpp","Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp","Solvers/SolversNSM.cpp","Solvers/SolversNSMSub.cpp","Solvers/SolversNSMSubLS.cpp","Solvers/SolversNSMPGLS.cpp","Solvers/LRBFGS.cpp"],
 [("SetParams",S+"*::SetParams")], observe="public members after SetParams; callback sequences of both runs")
prop("P16","Random values are seed-determined, in range and usable at every extreme",
 "genrandreal lies in [0,1], genrandnormal is finite, RandUnform stays within [start, end], RandGaussian is finite, both have the mean and variance asked for, RandominManifold gives finite feasible points (draws that make the random matrix exactly rank deficient excepted), and gradient sampling gives finite feasible trial points, for every state of the underlying generator, its extreme outputs included. "
 "The same state or seed gives the same values, and drawing values has no effect other than writing the target and advancing the generator.",
 ["inputs","fault_sequences","configurations"],
 "All outputs of the underlying rand() stream (0, RAND_MAX and their neighbours injected at any draw, singly or in a row), all seeds, all manifolds.",
 "Tests use the stream of one seed, which never produces the extreme values.",
 ["Others/randgen.cpp","Others/randgen.h","Manifolds/SmartSpace.cpp","Manifolds/Element.cpp","Manifolds/Stiefel.cpp","Solvers/RGS.cpp"],
 [("generator",O+"randgen.cpp"),("random elements",M+"SmartSpace::RandUnform/RandGaussian, "+M+"*::RandominManifold")],
 observe="returned values")
prop("P17","Solvers only consume derivatives that belong to the current iterate",
 "In every run the gradient a solver uses, and the Hessian products it requests, are evaluated at the point they are used for: the data the problem stored with a point during f is the data seen by EucGrad, EucHessianEta and the preconditioner at that point, never that of another point, whatever the order of accepted and rejected trials. "
 "Numerical differentiation (SetNumGradHess) leaves the point and its stored data unchanged and approximates the true gradient (costs defined only on the manifold, as on positive definite matrices, excepted).",
 ["histories","programs","configurations","fault_sequences"],
 "All solvers, trial/accept/reject histories, product structures and differentiation modes.",
 "Stale derivative data slows convergence rather than preventing it; the suite only sees the final gradient norm.",
 ["Problems/Problem.cpp","Manifolds/Element.cpp","Manifolds/Manifold.cpp","Solvers/SolversSMLS.cpp","Solvers/SolversSMTR.cpp"],
 [("Fields passed between callbacks","Problems/Problem.cpp Grad/HessianEta, "+M+"Element.cpp Fields"),("iterate hand-over",S+"SolversSMLS::Run, SolversSMTR::Run")],
 state="Element::Fields of x1, x2", observe="stamps written by the simulated problem into Fields in f and read in the other callbacks")
prop("P18","Inspecting objects does not change them or the runs they take part in",
 "Calling CheckParams of solvers and manifolds, CheckGradHessian and MinMaxEigValHess of problems, the manifolds' Check* diagnostics, Print and the getters - before, during (from the stopping function or a callback) or after a run - completes without error and leaves the run, its results, the point, manifold and problem exactly as they would be without the calls (random numbers drawn by the diagnostics excepted).",
 ["schedules","programs","configurations","histories"],
 "All solvers, manifolds and problems, all inspection calls, any number of them at any moment of a run.",
 "The suite prints parameters and checks gradients once, before or after its runs, and never compares a run with and without the calls.",
 ["Problems/Problem.cpp","Manifolds/Manifold.cpp","Manifolds/MultiManifolds.cpp","Solvers/Solvers.cpp","Solvers/SolversSM.cpp","Manifolds/Element.cpp"],
 [("diagnostics",M+"Manifold.cpp Check*, Problems/Problem.cpp CheckGradHessian/MinMaxEigValHess"),("printing",S+"*::CheckParams, "+M+"*::CheckParams, "+M+"Element.cpp Print")],
 state="manifold flags, problem flags, Fields, shared buffers", observe="callback argument sequence, solver accessors, flags, point data")
prop("P19","Manifold operations depend only on their arguments and keep their identities",
 "Whatever objects share, have cached or went through before (copies, writes, other operations, failed allocations included), retraction, transports, differentiated retraction, projections, intrinsic/extrinsic conversion, metric, distance, Beta and operator transport give the result they give on fresh copies of their arguments, and leave their arguments unchanged. "
 "In every state reached points stay on the manifold, retraction is first-order correct, DiffRetraction and coTangentVector belong to it (documented approximations excepted), transport is undone by its inverse and isometric in intrinsic coordinates, the transported step is Beta times the differentiated retraction where the locking condition is enforced, operator transport conjugates, conversions (tangent and normal space) invert each other, projections are idempotent, the inverse retraction (where implemented) inverts the retraction, and the metric is an inner product.",
 ["histories","fault_sequences","configurations","inputs"],
 "All manifolds, parameter sets and representations, all histories of operations on shared points, tangent vectors and steps, all positions of failing allocations.",
 "The suite calls these operations only through solver runs with one caching pattern and looks at final gradient norms.",
 ["Manifolds/Manifold.cpp","Manifolds/Stiefel.cpp","Manifolds/CStiefel.cpp","Manifolds/Grassmann.cpp","Manifolds/FixedRankE.cpp","Manifolds/FixedRankQ2F.cpp","Manifolds/CFixedRankQ2F.cpp","Manifolds/SymFixedRankQ.cpp","Manifolds/CSymFixedRankQ.cpp","Manifolds/SPDManifold.cpp","Manifolds/Sphere.cpp","Manifolds/SphereTx.cpp","Manifolds/Euclidean.cpp","Manifolds/MultiManifolds.cpp"],
 [("geometry",M+"*.cpp Retraction, VectorTransport, InverseVectorTransport, DiffRetraction, coTangentVector, Projection, ObtainIntr/Extr, Metric, Dist, Beta, TranHInvTran"),("cached factorizations","Fields attached to points and tangent vectors (HHR, Cayley factors, SVD, L, ...)")],
 state="Element Fields cached by manifolds", observe="values returned by the public manifold operations")
prop("P20","Costs and derivatives depend only on the point and belong together",
 "Whatever points and vectors share, have cached or went through before (failed allocations included), f, Grad and HessianEta give at a point what they give at a fresh copy of it and leave their arguments unchanged, for every problem class, representation and metric. "
 "In every state reached the gradient gives the rate of change of the cost along retractions, the Euclidean Hessian is the derivative of the Euclidean gradient, and the Riemannian Hessian is symmetric and (where the retraction's curvature is known) agrees with the second derivative of the cost.",
 ["histories","fault_sequences","configurations","inputs"],
 "All problem classes, points and directions, all histories of evaluations, copies and writes, all positions of failing allocations.",
 "CheckGradHessian prints a table for a human and asserts nothing; the suite evaluates in the order of its solvers only.",
 ["Problems/Problem.cpp","Problems/StieBrockett.cpp","Problems/CStieBrockett.cpp","Problems/GrassRQ.cpp","Problems/EucQuadratic.cpp","Problems/SPDKarcherMean.cpp","Problems/SFRQLyapunov.cpp","Problems/FRankQ2FMatCompletion.cpp","Problems/FRankEWeightApprox.cpp","Problems/FRankESparseApprox.cpp","Problems/CSFRQPhaseRetrieval.cpp","Problems/CFRankQ2FBlindDecon2D.cpp","Problems/ProdStieSumBrockett.cpp","Problems/SphereSparsestVector.cpp","Problems/SphereTxRQ.cpp","Problems/StieSPCA.cpp","Manifolds/Manifold.cpp"],
 [("evaluation","Problems/Problem.cpp Grad/HessianEta/RieGrad/RieHessianEta, Problems/*.cpp"),("conversion",M+"*.cpp EucGradToGrad, EucHvToHv")],
 state="Fields problems attach to points in f and read in the derivatives", observe="values returned by f, Grad, HessianEta, EucGrad, EucHessianEta")
# --- not applicable to this technique
prop("N03","Spline, wavelet and FFT helpers compute the transforms they are named after",
 "Spline interpolation passes through its knots, Haar wavelet and FFT transforms are inverted by their inverses.",
 ["inputs"],"All input arrays.","No test calls the spline code; the wavelet code is only used inside one problem.",
 ["Others/Spline.cpp","Others/wavelet/wavelet.cpp","Others/fftw"],[("transforms",O+"Spline.cpp, "+O+"wavelet/wavelet.cpp")])
prop("N04","The Matlab, Julia and Python interfaces agree with the C++ interface",
 "A problem described through the Matlab, Julia or Python interface is solved as the same problem written in C++.",
 ["programs"],"All problems expressible through the interfaces.","The interfaces cannot be built by the test set-up.",
 ["Problems/mexProblem.cpp","Problems/juliaProblem.cpp","test/DriverMexProb.cpp","Julia","Python","Matlab"],[("interfaces","Problems/mexProblem.cpp, Problems/juliaProblem.cpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
