"""Per property: precision modes to run, monitors that must have observed something, counting rule."""

SPECS = {}


def spec(pid, monitors, rule, modes=("f32", "f64"), assumptions=(), spin=None):
    SPECS[pid] = dict(monitors=list(monitors), rule=rule, modes=list(modes), assumptions=list(assumptions), spin=spin)


spec("C01", ["field", "field-eager", "defaults", "conservative"],
     "positions drawn over unit systems x latitudes (generic, poles, equator, zeros of the zonal terms) x state lengths 3..42; distinct by all inputs; trivial: J = 0")
spec("C02", ["matrix", "shape", "orthonormal", "axis", "group-law", "acts"],
     "angles over 10 decades, signs, multiples of pi/4 and batch shapes; distinct by angle and axis")
spec("C03", ["formula", "inverse", "apsides", "constants", "scalars", "broadcast"],
     "conics over eccentricity regime x unit system; distinct by function and inputs")
spec("C04", ["formula", "derivative", "universal", "mean-anomaly", "scalars"],
     "anomalies over decades and signs x eccentricity regime; arcs of true motion; distinct by function and inputs")
spec("C10", ["motion", "motion-rows", "integrals", "deep", "special"],
     "orbits drawn over conic type x inclination x unit system x flight time; non-trivial: flight time not zero")
spec("C05", ["root", "value", "tolerance", "symmetry", "monotone", "scalars"],
     "M over 15 decades, signs, neighbourhoods of multiples of pi/2 and many turns x e from 0 to 1 - 1 ulp; tolerance and iteration budget varied; distinct by inputs")
spec("C06", ["root", "value", "tolerance", "symmetry", "monotone", "scalars"],
     "N over 21 decades and signs x e from 1 + 1 ulp to 1000; tolerance and iteration budget varied; distinct by inputs")
spec("C07", ["root", "value", "tolerance", "symmetry", "scalars"],
     "conic regime x unit system x flight time of either sign up to 1000 revolutions, exact parabolas and apses; trivial: zero flight time")
spec("C09", ["value", "identities", "derivative", "array-chi"],
     "alpha chi^2 over 16 decades of both signs and exactly zero; distinct by inputs and function")
spec("C08", ["universal", "elliptic", "hyperbolic", "budget", "kepler", "neighbours", "step-budget"],
     "batches of valid, unphysical, infinite, NaN and subnormal inputs with unreachable tolerances and every iteration budget; an event is one batched call that returned; distinct by regime and call", spin=60.0,
     assumptions=["a single call that burns 60 CPU seconds (the slowest legitimate one needs about two) is a spin"])
spec("C11", ["composition", "reversal", "identity", "period", "rows"],
     "orbits over conic type x unit system, two flight times of either sign; histories of two and three propagator calls; epoch batches permuted, repeated and mixed; distinct by inputs")
spec("C12", ["formula", "coefficients", "area", "maps-state"],
     "arcs over conic type x unit system x flight time; distinct by inputs")
spec("C13", ["blocks", "derivative-of-flow", "finite-difference", "symplectic", "identity", "composition", "jacobian-of-kepler"],
     "arcs over conic type x unit system x flight time of either sign; distinct by inputs and block")
spec("C14", ["el-range", "el-shape", "el-plane", "el-planar", "el-latitude", "el-longitude", "el-anomaly", "el-periapsis", "el-conic", "angles", "single", "grid"],
     "states over conic type x inclination regime (generic, polar, exactly and nearly equatorial, retrograde) x unit system, axis-aligned degenerate states; distinct by state and element")
spec("C15", ["from-elements", "state-round-trip", "elements-round-trip", "broadcast"],
     "element sets and states over conic type x inclination regime x unit system; every mixture of scalar and array elements; distinct by inputs")
spec("C16", ["decision", "flown-arc", "closest-point", "reversal", "revolutions"],
     "transfers whose end points are drawn in the plane or flown by the reference propagator; events within a few hundred ulps of the decision boundary are excluded; distinct by inputs")
spec("C17", ["two-body", "zonal", "integrals", "forced", "script", "variational"],
     "orbits over conic type x unit system x propagation direction x propagation mode, strongly and weakly oblate bodies, user-defined forced oscillators; an event is one saved state of a trajectory; trivial: the initial state",
     assumptions=["SciPy's DOP853 at rtol 1e-12 is the reference for zonal perturbations"])
spec("C18", ["shape", "state-shape", "padding", "start", "end", "monotone", "every-step", "step-size", "step-count", "states", "budget", "epochs", "custom-long", "refused", "modes-agree", "free"],
     "forced damped oscillators with random coefficients, propagation directions, step sizes, step budgets and epoch lists (ends, repeated, clustered, invalid); an event is one checked clause of one recorded trajectory")
spec("C19", ["condition", "reported", "runs-on", "no-event", "stop", "located", "before", "budgets", "user"],
     "orbits that do or do not descend through a threshold x propagation mode x stop-at-step / root-located, oscillators with user-defined, directed, boolean and combined conditions; passages within a step of the final time are excluded")
spec("C20", ["history", "history-args", "history-times", "history-states", "settings", "statistics", "random-settings", "config"],
     "random states, argument trees and final times x propagation mode x solver / controller / first step / step budget / schedule / event; an event is one checked clause of one recorded evaluation history or one compared saved state")
spec("C21", ["units", "units-value", "gravity", "propagation"],
     "every public function with a dimensional argument x random situation x random power-of-two change of length and time units; distinct by function, situation and units")
spec("C22", ["frame", "node", "gravity", "time"],
     "every public function of vectors x random situation x frame change (random rotations, exact axis permutations, mirror images, time reversal); distinct by function, situation and frame")
spec("C23", ["same-precision", "python-values", "integers", "gravity", "propagation"],
     "every public function x input type (JAX, NumPy, Python; integer, single, double and mixtures) x precision mode; distinct by function, types and inputs",
     modes=("f32.0", "f32.1", "f32.2", "f64.0", "f64.1", "f64.2"))
spec("C24", ["mapped", "batch-shapes", "nested", "loop", "axes", "single", "broadcast", "neighbours", "propagation"],
     "every public function and propagation mode x program transformation x random batch; distinct by function, form and inputs",
     modes=("f32.0", "f32.1", "f32.2", "f64.0", "f64.1", "f64.2"))
spec("C25", ["forward", "reverse", "eager", "propagation"],
     "every smooth public function x random situation x one random argument and direction; both differentiation modes; distinct by function and inputs",
     modes=("f32.0", "f32.1", "f32.2", "f64.0", "f64.1", "f64.2"))
spec("C26", ["first", "history", "fresh-process", "threads", "reused", "arguments", "settings", "import", "leaks"],
     "a pool of calls (every public function, batch and compiled forms, every propagation mode) x histories of hostile calls x threads x a fresh process in another order; an event is one repetition compared bit for bit, or one argument, default or setting compared before and after",
     modes=("f32.0", "f32.1", "f32.2", "f64.0", "f64.1", "f64.2"))
spec("C27", ["names", "arguments", "defaults", "solver-defaults", "fields", "propagators"],
     "every public function x call form (by position, by keyword, mixed) x subset of optional arguments left out; an event is one result judged against the reference at the documented default, or one documented name",
     modes=("f32.0", "f32.1", "f64.0", "f64.1"))
