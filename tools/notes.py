TRUST = " Trusted: the Decimal reference in kkmc/ref.py (cross-checked against batch conditioning in Fractions), the comparison tolerances, CPython and numpy."
BOUND = "Exhaustive within the bounds printed in the evidence file; nothing is claimed for inputs outside the enumerated alphabets/depths."
G = BOUND + TRUST
TECH = {
 "P01": "explicit-state enumeration of model histories; every reference-model trace replayed on the real filter",
 "P02": "explicit-state enumeration of model histories; every reference-model trace replayed on the real smoother",
 "P03": "enumeration of nonlinear model histories; reference traces (symbolic Jacobians) replayed on the real extended filter",
 "P04": "enumeration of nonlinear model histories; reference traces replayed on the real extended smoother",
 "P05": "exhaustive differential exploration of the two real filters over all enumerated linear histories",
 "P06": "exhaustive enumeration of cut points x replaced futures on the real filters",
 "P07": "exhaustive enumeration of all ways to split/drive a series, replayed on the real filters",
 "P08": "exhaustive exploration of operation sequences on one object against a stateless model",
 "P09": "stateless model checking: controlled scheduler, all interleavings to a preemption bound, plus all nested-call points",
 "P10": "exhaustive exploration of operation sequences against a model of the gain record",
 "P11": "exhaustive enumeration of control-presence patterns against the reference model",
 "P12": "breadth-first search of reachable covariances on the real filters with invariant checks",
 "P13": "exhaustive enumeration of data perturbations (impulses, pairs, magnitudes) on the real filters",
 "P14": "exhaustive enumeration of coordinate/unit changes x histories on the real filters",
 "P15": "exhaustive enumeration of component interleavings and assimilation orders on the real filters",
 "P16": "exhaustive enumeration of input representations (single and pairwise) on the real filters",
 "P17": "exhaustive enumeration of sequence-length combinations on the real filters",
 "P18": "exhaustive enumeration of degenerate measurement configurations on the real filters",
 "P19": "exhaustive enumeration of observable/controllable systems x initial beliefs run to the Riccati fixed point",
 "P20": "exhaustive enumeration of small arrays (shape x element type x placement) against the definition",
 "P21": "breadth-first search of real git repository states against a model of the version scheme",
 "P22": "breadth-first search of real git repository states, differential between build-time and run-time code",
 "P23": "fault enumeration: every callback call / step x exception type x operation, then every follow-up operation",
 "P24": "exhaustive execution of every example and documented program plus state-grid enumeration of their Jacobians",
 "P25": "exhaustive enumeration of callback aliasing modes with a full argument log against the model's call arguments",
 "P26": "exhaustive exploration of sequences of attribute changes, in-place edits, copies and calls against a model that knows only the current values",
 "P27": "exhaustive enumeration of process-wide settings (singles, pairs) and interpreter modes x operations on the real code",
 "P28": "exhaustive enumeration of positional/named argument splits, callable kinds and import orders on the real code",
}
NOTES = {k: G for k in TECH}
