"""Writes /verif/properties.jsonl (run by hand when the properties change)."""
import json, pathlib
STD, EKF, UT, VER, VSR = ("src/kalmankit/standard.py", "src/kalmankit/extended.py",
    "src/kalmankit/utils.py", "src/kalmankit/_version.py", "versioneer.py")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

prop("P01", "Filtered estimates are the exact Gaussian conditional mean and covariance",
 "For every linear time-varying model (any state, observation and control sizes, any horizon, any valid noise covariances including zero, singular and correlated ones, any initial belief) whose innovation covariances are well conditioned, filtering with the standard filter returns at each step the exact conditional mean and covariance of the state given the observations up to and including that step, with the step-k model, control and noise applied to step k. No size, magnitude, sparsity or special value of the inputs (zero innovation, outlier, identity or repeated matrices, tiny or huge units, long horizon) changes that.",
 ["inputs", "histories"], "all linear-Gaussian models, controls and observation histories",
 "The two filter tests use one scalar constant model and one 2x2 five-step model; wrong transposes, index slips, thresholds and shortcuts on special values or sizes agree on those.",
 [STD], [("predict", f"{STD}:KalmanFilter.predict"), ("update", f"{STD}:KalmanFilter.update"), ("feedback loop", f"{STD}:KalmanFilter.filter")],
 ["KalmanFilter.filter", "KalmanFilter.predict", "KalmanFilter.update"])

prop("P02", "Smoothed estimates are the exact conditional mean and covariance",
 "For every linear time-varying model with well-conditioned innovation and predicted covariances, smoothing with the standard filter returns at each step the exact conditional mean and covariance of the state given all the observations, before and after that step, including the effect of controls and of time-varying transition and noise matrices. The last smoothed estimate equals the last filtered estimate, and smoothing a single observation equals filtering it.",
 ["inputs", "histories"], "all linear-Gaussian models, controls and observation histories",
 "Tests smooth one scalar series and one 2x2 five-step model with constant noise; index slips in Q or U and transposes that agree there are not seen.",
 [STD], [("backward pass", f"{STD}:KalmanFilter.smooth")], ["KalmanFilter.smooth"])

prop("P03", "Extended filter is the first-order filter linearised at the documented points",
 "For every differentiable nonlinear model, the extended filter predicts the state with the transition function and the covariance with its Jacobian, both evaluated at the previous posterior mean and the control of the current step, then corrects with the observation function and its Jacobian evaluated at the predicted mean. Every returned mean and covariance is the one this recursion gives, for every size, horizon, control and observation history.",
 ["inputs", "histories"], "all nonlinear models, controls and observation histories",
 "The only extended-filter test with expected values uses a linear scalar model with zero controls, where the linearisation point does not matter.",
 [EKF], [("predict", f"{EKF}:ExtendedKalmanFilter.predict"), ("update", f"{EKF}:ExtendedKalmanFilter.update"), ("feedback loop", f"{EKF}:ExtendedKalmanFilter.filter")],
 ["ExtendedKalmanFilter.filter", "ExtendedKalmanFilter.predict", "ExtendedKalmanFilter.update"])

prop("P04", "Extended smoother follows the extended RTS recursion on nonlinear models",
 "For every differentiable nonlinear model, the extended smoother returns the extended Rauch-Tung-Striebel result: its backward pass re-predicts each step from the filtered mean with the next step's control and process noise, linearises the transition at that filtered mean and control, and combines the predicted and the smoothed mean and covariance of the next step. The last smoothed estimate equals the last filtered one.",
 ["inputs", "histories"], "all nonlinear models, controls and observation histories",
 "The smoother test uses functions that are linear in the state, so evaluating a Jacobian at the wrong point or control is invisible.",
 [EKF], [("backward pass", f"{EKF}:ExtendedKalmanFilter.smooth")], ["ExtendedKalmanFilter.smooth"])

prop("P05", "Extended filter equals standard filter on every linear system",
 "When the transition and observation functions are linear in the state (with any control term and any time variation carried by the control), the extended filter and the extended smoother return the same means, covariances and recorded gains as the standard filter and smoother on the equivalent matrices. This holds for all sizes, horizons, noise levels and data, including steps without control effect.",
 ["inputs", "histories"], "all linear models and observation histories, both entry points",
 "The comparison test is one scalar random-walk series against constants, never the two implementations against each other on multidimensional or controlled systems.",
 [STD, EKF], [("two independent implementations of the same recursion", f"{EKF}:ExtendedKalmanFilter; {STD}:KalmanFilter")],
 ["KalmanFilter.filter/smooth", "ExtendedKalmanFilter.filter/smooth"])

prop("P06", "Filtering is causal: estimates never depend on the future",
 "For both filters, the estimate returned for step k depends only on observations, controls and model terms up to step k: replacing anything after step k by any other values (even undefined ones), or truncating the series after step k, leaves the first k+1 rows unchanged. Model sequences that extend beyond the observations have no influence on filtering or smoothing.",
 ["inputs", "histories"], "every cut point of every history and every replacement of the future",
 "Tests never compare runs on different lengths of the same series or with altered tails.",
 [STD, EKF], [("single forward pass over zipped sequences", f"{STD}:KalmanFilter.filter"), ("single forward pass", f"{EKF}:ExtendedKalmanFilter.filter")],
 ["filter", "smooth"])

prop("P07", "Filtering can be stopped and resumed at any point, or run online step by step",
 "For both filters, splitting a series at any set of points and restarting each part from the last returned mean and covariance gives the same estimates as one uninterrupted run. Driving predict and update by hand, one observation at a time, gives the same estimates as the batch filter, in any mixture of batch and online parts.",
 ["histories", "inputs"], "every way to cut a history into batch and online segments",
 "Tests only call filter or smooth on a whole series, and predict once.",
 [STD, EKF], [("state carried only by mean and covariance", f"{STD}:KalmanFilter.filter"), ("same", f"{EKF}:ExtendedKalmanFilter.filter")],
 ["filter", "predict", "update"])

prop("P08", "Results never depend on what the object did before; data is never modified",
 "For both filters, any sequence of filter, smooth, predict and update calls on one object gives each call the result it would give on a freshly built object. No call modifies any array it was given (at construction or call time) or any array returned earlier, and the caller may overwrite returned arrays, or the arrays an object filled in for omitted terms, without affecting later results of that or, respectively, any other object.",
 ["histories"], "all sequences of public operations on shared objects",
 "Each test builds one object and calls it once or twice; state leaking between calls or aliasing between results and internal buffers is not exercised.",
 [STD, EKF, UT], [("per-call allocation of results", f"{STD}:KalmanFilter.filter"), ("no in-place arithmetic", f"{STD}:KalmanFilter.update"), ("per-call allocation", f"{EKF}:ExtendedKalmanFilter.filter")],
 ["filter", "smooth", "predict", "update", "constructor arrays"],
 [("xk, Pk", "initial belief, never advanced by a run", f"{STD}:KalmanFilter.__init__")])

prop("P09", "Concurrent and nested runs do not interfere",
 "Filtering, smoothing, predict and update calls that run concurrently in several threads, on the same filter object or on different ones, each return what they would return alone, under every interleaving; so do runs nested inside a model callback of another run. The gains recorded by a shared object are exactly those of the runs together, each run's gains in its own order.",
 ["schedules"], "all thread interleavings up to a preemption bound, and all nesting points",
 "Tests are single-threaded and never nest runs.",
 [STD, EKF, UT], [("run state held in local variables only", f"{STD}:KalmanFilter.filter"), ("append-only gain list", f"{STD}:KalmanFilter.update"), ("run state local", f"{EKF}:ExtendedKalmanFilter.smooth")],
 ["filter", "smooth", "predict", "update", "kalman_gains"])

prop("P10", "The gain record holds exactly the optimal gain of every update, in order",
 "For both filters, after any sequence of calls the recorded gains are, oldest first, exactly one optimal gain (predicted covariance times observation matrix transposed times inverse innovation covariance, shaped state by observation) per measurement update performed since construction. Prediction and the smoother's backward pass record none, and gains already recorded are never altered, shared with other arrays or dropped.",
 ["histories", "inputs"], "all operation sequences and models",
 "No test looks at the recorded gains.",
 [STD, EKF], [("append in update", f"{STD}:KalmanFilter.update"), ("append in update", f"{EKF}:ExtendedKalmanFilter.update")],
 ["kalman_gains"], [("kalman_gains", "history of gains since construction", f"{STD}:KalmanFilter.__init__")])

prop("P11", "Absent control means no control, exactly at the steps where it is absent",
 "In the standard filter's filter, smooth and predict, a control input or control matrix that is omitted (None, whole series) or entirely NaN (single step) contributes nothing at exactly those steps, and at every other step control matrix times control is added in full, also when some rows are zero. This holds whatever the element type of the observations, controls and matrices (integer, boolean or floating), and a control that is only partly NaN is never silently treated as absent or as zero.",
 ["inputs", "configurations"], "all presence patterns of controls over time, all element types",
 "Tests use zero controls or none, float data only; presence patterns that vary over time are never tried.",
 [STD, UT, EKF], [("NaN placeholder", f"{UT}:check_none_and_broadcast"), ("per-step skip", f"{STD}:KalmanFilter.predict"), ("all-NaN test", f"{UT}:is_nan_all")],
 ["KalmanFilter.filter/smooth/predict"])

prop("P12", "Covariances stay valid and observations never add uncertainty",
 "For both filters, every returned covariance is symmetric and positive semidefinite up to rounding, along every history of well-conditioned model terms. A measurement update never increases uncertainty in any direction (posterior no larger than prior), and smoothing never increases it either (smoothed no larger than filtered).",
 ["histories", "inputs"], "all reachable covariances of all event histories",
 "Tests compare a handful of covariances with expected numbers and never check validity along other histories.",
 [STD, EKF], [("covariance prediction", f"{STD}:KalmanFilter.predict"), ("covariance correction", f"{STD}:KalmanFilter.update"), ("smoothed covariance", f"{STD}:KalmanFilter.smooth")],
 ["filter", "smooth", "predict", "update"])

prop("P13", "Linear filtering: uncertainty ignores the data, estimates are affine in it",
 "In the standard filter and smoother the covariances and gains do not depend on the observed values, the control values or the initial mean. The estimates are an affine function of them: the response to any combination of observations, controls and initial mean is the combination of the responses to each alone, however small, large or surprising the values are.",
 ["inputs"], "all data values and combinations for a given model",
 "A test with one data series cannot reveal gating, clipping, rounding or any other dependence on data values.",
 [STD], [("gain computed from model terms only", f"{STD}:KalmanFilter.update"), ("linear state recursion", f"{STD}:KalmanFilter.predict")],
 ["filter", "smooth", "kalman_gains"])

prop("P14", "Results are equivariant under changes of units and coordinates",
 "Re-expressing a problem in other coordinates or units (any invertible change of state basis, of observation basis or of control basis, including reordering and extreme rescaling of components) re-expresses filtered and smoothed estimates, covariances and gains accordingly and changes nothing else. Multiplying all covariances by a common positive factor multiplies the returned covariances by it and leaves estimates and gains unchanged. This holds for both filters.",
 ["inputs"], "all models and all invertible changes of coordinates",
 "Tests use one unit system of order one; absolute thresholds, jitter, clipping or coordinate-specific shortcuts do not show.",
 [STD, EKF], [("matrix recursion without absolute constants", f"{STD}:KalmanFilter.update"), ("same", f"{EKF}:ExtendedKalmanFilter.update")],
 ["filter", "smooth", "kalman_gains"])

prop("P15", "Independent subsystems stay independent; independent measurements commute",
 "Filtering or smoothing a system made of independent subsystems (in any interleaving of their components) gives the results of each subsystem on its own and zero cross-covariance, for both filters. Simultaneous measurements with independent noises may be assimilated jointly or one group after another in any order, with the same resulting belief.",
 ["inputs", "histories"], "all pairs of subsystems, all component orders, all assimilation orders",
 "Tests have no composed system and no repeated update at one step.",
 [STD, EKF], [("matrix recursion", f"{STD}:KalmanFilter.update"), ("matrix recursion", f"{EKF}:ExtendedKalmanFilter.update")],
 ["filter", "smooth", "update"])

prop("P16", "Results depend on input values, not on how the inputs are represented",
 "For both filters, supplying the same numbers in another supported form (integer element types wide enough for the sums and products involved or floating ones, any byte order, lists or tuples of per-step matrices, read-only, strided, unaligned, memory-mapped, transposed-layout or broadcast arrays and array subclasses, flat or single-column scalar observations, per-step scalars or 1x1 matrices for size-one noise, an explicit matching state size, a scalar observation noise where documented) gives the same results. Results always have one row per observation and the state's dimensions, for every series length including zero and one.",
 ["inputs", "configurations"], "all combinations of supported input forms and lengths",
 "Tests use contiguous float arrays of length five or ten.",
 [STD, EKF, UT], [("result allocation", f"{STD}:KalmanFilter.filter"), ("broadcast of missing control", f"{UT}:check_none_and_broadcast"), ("1-d innovation", f"{STD}:KalmanFilter.update")],
 ["constructor", "filter", "smooth"])

prop("P17", "Every returned row is a computed estimate: short model sequences are an error",
 "For both filters, when some per-step sequence (transition, observation, control, noise, or control input) does not cover every observation, filter and smooth raise an error instead of returning rows that were never estimated. They never fail for sequences that cover all the observations or more.",
 ["inputs", "configurations"], "all combinations of sequence lengths",
 "Tests always pass sequences of equal length.",
 [STD, EKF], [("lock-step iteration over the sequences", f"{STD}:KalmanFilter.filter"), ("lock-step iteration", f"{EKF}:ExtendedKalmanFilter.filter")],
 ["filter", "smooth"])

prop("P18", "Exact measurements are honoured, empty ones ignored, degenerate ones refused",
 "For both filters, an update with a noise-free independent measurement yields an estimate that reproduces it exactly with zero remaining variance along it, and an update with an uninformative measurement (zero observation matrix, a perfectly known state, or unboundedly noisy channel) leaves the belief as it was whatever the measured value. An update whose computed innovation covariance is exactly singular raises an error rather than returning an estimate.",
 ["inputs"], "all placements of exact, empty and degenerate measurement channels",
 "Tests use only moderate noise and full observation matrices.",
 [STD, EKF], [("gain by linear solve", f"{STD}:KalmanFilter.update"), ("gain by linear solve", f"{EKF}:ExtendedKalmanFilter.update")],
 ["update", "filter"])

prop("P19", "Long runs converge to the steady state and forget the start",
 "On time-invariant observable and controllable systems both filters stay bounded for arbitrarily long series, their covariances converge to the unique steady-state Riccati solution from every initial covariance, and runs that differ only in the initial belief converge to the same estimates. A larger initial covariance never leads to a smaller covariance at any later step.",
 ["histories", "inputs"], "all long histories from all initial beliefs",
 "Tests stop after at most ten steps.",
 [STD, EKF], [("covariance recursion", f"{STD}:KalmanFilter.filter"), ("covariance recursion", f"{EKF}:ExtendedKalmanFilter.filter")],
 ["filter"])

prop("P20", "Utility helpers decide missing data exactly",
 "The all-missing test is true exactly when no element is a number, for arrays of every shape, dimension and numeric type and every placement of NaN among finite, infinite and zero values. The default-filling helper returns a given array unchanged (the same object) and otherwise a fresh all-NaN array of the reference's shape, for references of every shape and numeric type, without touching the reference.",
 ["inputs"], "all arrays over a small value alphabet, shapes and element types",
 "Tests try four arrays, all of floats, and one filling call.",
 [UT], [("is_nan_all", f"{UT}:is_nan_all"), ("check_none_and_broadcast", f"{UT}:check_none_and_broadcast")],
 ["kalmankit.utils.is_nan_all", "kalmankit.utils.check_none_and_broadcast"])

prop("P21", "The reported version identifies the source state it runs from",
 "In a git checkout the package reports the nearest reachable version tag (v followed by a digit), without prefix, plus commit distance and abbreviated commit when not exactly on it, plus a dirty mark when tracked files differ; without such a tag it reports an untagged version with commit count and commit. Archives report their tag, or unknown with the full commit when untagged; unpacked trees without history report the version in their directory name or unknown. For PEP 440 tags the version is always valid PEP 440, and in checkouts different commits, and the clean and modified trees of one commit, never report the same version, and the companion revision, dirty, date and error fields describe the same state, whatever the working directory or GIT_DIR.",
 ["histories", "configurations"], "all short histories of commits, tags, edits, checkouts and archives",
 "No test touches version reporting.",
 [VER, "src/kalmankit/__init__.py"], [("describe and parse", f"{VER}:git_pieces_from_vcs"), ("render", f"{VER}:render_pep440"), ("archive keywords", f"{VER}:git_versions_from_keywords"), ("directory name", f"{VER}:versions_from_parentdir")],
 ["kalmankit.__version__", "kalmankit._version.get_versions"])

prop("P22", "Build-time and run-time versions agree",
 "For every source state (checkout, archive, unpacked directory) the version the build tooling shipped in the repository computes is the one the package itself reports when imported from that tree, including revision, dirty and error fields. A version file written by the build tooling (stamped, or freshly generated from its template) makes the package report exactly that version wherever it is placed, built and packaged copies included, and every rendering style the tooling offers is the documented function in both.",
 ["histories", "configurations"], "all short repository histories, all rendering inputs",
 "No test builds or compares versions.",
 [VER, VSR], [("build-time computation", f"{VSR}:get_versions"), ("stamping", f"{VSR}:write_to_version_file"), ("run-time computation", f"{VER}:get_versions")],
 ["versioneer.get_versions", "kalmankit._version.get_versions"])

prop("P23", "A failure at any step propagates and leaves the object fully usable",
 "For both filters, when a model callback or a per-step input fails, or the run is interrupted, at any point of filter, smooth, predict or update, the original exception reaches the caller unchanged, nothing the caller supplied has been modified, and no partial result is returned. Afterwards the same object gives correct results for any later call, and its recorded gains are exactly those of the updates that completed.",
 ["fault_sequences", "histories"], "every fault point and exception kind, followed by any further operation",
 "No test makes anything fail.",
 [STD, EKF], [("no exception handling, run state local", f"{STD}:KalmanFilter.filter"), ("same", f"{EKF}:ExtendedKalmanFilter.smooth")],
 ["filter", "smooth", "predict", "update", "kalman_gains"])

prop("P24", "Documentation and examples run and describe consistent models",
 "Every shipped example and the quick-start walk-through run to completion against the library and produce finite estimates, one per observation. The Jacobians the examples supply are the derivatives of the functions they accompany at every state, and in the smoothing examples smoothed uncertainty never exceeds filtered uncertainty.",
 ["inputs", "programs"], "all shipped example programs; a grid of all pendulum states",
 "Neither the test suite nor the build executes examples or documentation.",
 ["examples/pendulum.py", "examples/pendulum_smoothing.py", "examples/constant_velocity_smoothing.py", "examples/market_beta.py", "examples/moving_average.py", "docs/source/quickstart.rst"],
 [("model functions", "examples/pendulum.py:jacobian_A"), ("main", "examples/*.py:main")], ["examples", "docs/source/quickstart.rst"])

prop("P25", "Model callbacks see exactly the documented arguments and may reuse buffers",
 "The extended filter calls the transition function and its Jacobian with the state and exactly that step's control (all-NaN when no controls were given), and the observation function and its Jacobian with the state only, at every step of filtering and smoothing. Arrays it hands to a callback are never changed by the library afterwards, and callbacks that return their own argument, a view of it, or the same preallocated buffer on every call give the same results as callbacks returning fresh arrays.",
 ["histories", "inputs"], "all aliasing behaviours of the four callbacks in all combinations",
 "Test callbacks always return fresh arrays and never record what they were given.",
 [EKF], [("callback calls", f"{EKF}:ExtendedKalmanFilter.predict"), ("callback calls", f"{EKF}:ExtendedKalmanFilter.update"), ("backward pass", f"{EKF}:ExtendedKalmanFilter.smooth")],
 ["f, h, jacobian_A, jacobian_H"])

prop("P26", "The public attributes are the model; copies are independent",
 "For both filters, replacing a public model attribute (initial mean or covariance, a matrix sequence, a noise covariance, a model callback) or editing its array between calls makes every later call behave exactly like a filter freshly built with the current values. A deep copy or a pickle round trip yields an equivalent filter with the same recorded gains, after which neither filter affects the other, and a shallow copy is unaffected by attributes rebound on the original.",
 ["histories", "configurations"], "all sequences of attribute changes, copies and calls",
 "Tests never change an attribute after construction and never copy or pickle a filter.",
 [STD, EKF], [("attributes read at call time", f"{STD}:KalmanFilter.filter"), ("attributes read at call time", f"{EKF}:ExtendedKalmanFilter.filter")],
 ["constructor attributes", "filter", "smooth", "predict", "update", "copy", "pickle"],
 [("A, B, H, Q, R, xk, Pk", "the model as the caller last set it", f"{STD}:KalmanFilter.__init__")])

prop("P27", "Process-wide settings neither influence results nor are changed",
 "The results and raised errors of every public operation are the same in every interpreter mode (optimised, warnings as errors, any hash seed or locale) and under every process-wide setting (numpy error handling and print options, random seeds, decimal context, garbage collection, environment, working directory), from any thread. No operation (importing included), whether it succeeds or fails, changes such a setting, and none prints or warns on valid input.",
 ["configurations"], "all combinations of settings and interpreter modes with all operations",
 "Tests run in one interpreter mode under default settings and never inspect global state.",
 [STD, EKF, UT, "src/kalmankit/__init__.py"], [("length check by an explicit exception", f"{STD}:KalmanFilter.filter"), ("pure numpy arithmetic", f"{EKF}:ExtendedKalmanFilter.update")],
 ["import kalmankit", "filter", "smooth", "predict", "update", "utilities"])

prop("P28", "The documented names and call forms all work",
 "Every documented parameter of the constructors, methods and utilities can be given by position in the documented order or by its documented name, in every mixture, with the same results. Model callbacks may be any callables with any parameter names (functions, lambdas, bound methods, partials, callable objects). The documented modules and public names are importable in every order.",
 ["configurations", "programs"], "all positional/named splits, all kinds of callables, all import orders",
 "Tests pass everything by name, with plain functions, after one import.",
 [STD, EKF, UT, "src/kalmankit/__init__.py"], [("signatures", f"{STD}:KalmanFilter.__init__"), ("signatures", f"{EKF}:ExtendedKalmanFilter.__init__"), ("positional callback calls", f"{EKF}:ExtendedKalmanFilter.predict")],
 ["constructors", "filter", "smooth", "predict", "update", "kalmankit.__all__"])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
