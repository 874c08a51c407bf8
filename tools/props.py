"""Source of properties.jsonl and MANIFEST.json: python tools/props.py (re)writes both."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/astrodynx/"
KEP, UNI, LAG, STM = S + "twobody/_kep_equ.py", S + "twobody/_uniformulas.py", S + "twobody/_lagrange.py", S + "twobody/_state_trans.py"
ELE, INT, PATH = S + "twobody/_orb_elements.py", S + "twobody/_orb_integrals.py", S + "twobody/_path_check.py"
GRAV, EVT, COW, PRK, ROT = S + "gravity/_general.py", S + "events/radius.py", S + "prop/_cowell_method.py", S + "prop/_kepler.py", S + "utils/_rot_mat.py"
INIT = S + "__init__.py"

P = []


def p(pid, title, statement, over, text, why, files, mech, note, observe=None, level_note=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=note, observe=observe or [], level_note=level_note))


TOL = "to within rounding (a fixed multiple of the working precision times the conditioning of the result)"

p("C01", "Gravity accelerations equal the gradient of the gravitational potential",
  f"For every position outside the origin, state length, unit system, gravitational parameter, zonal coefficient and equatorial radius, the point-mass, J2, J3 and J4 accelerations equal the analytic gradients of the respective potential terms {TOL}. Their Jacobians with respect to position are symmetric and traceless, and they are the derivative of the returned field. Missing arguments take the documented defaults, only the first three state components matter, and time does not.",
  ["inputs", "configurations"], "every position, state length, unit system, mu, Jn, R_eq, in float32 and float64, eager and compiled",
  "Tests compare a handful of Earth positions with fixed tolerances; sign, latitude dependence, poles, zeros of the zonal polynomials and the field's derivative are unsampled.",
  [GRAV], [("point_mass_grav, j2_acc, j3_acc, j4_acc", GRAV)], "runtime monitors: extended-precision reference field over generated workloads")
p("C02", "Rotation matrices form one-parameter groups of proper rotations",
  f"For every angle and batch shape the three axis rotation matrices are the documented matrices {TOL}, of shape batch + (3, 3). They are orthonormal with determinant one, leave their own axis fixed, the product of two about the same axis is the rotation by the summed angle, and the opposite angle gives the transpose.",
  ["inputs"], "all angles over many decades and signs, all batch shapes, both precisions",
  "Tests sample a few angles such as 0 and pi/2 where sign and ordering errors can hide.",
  [ROT], [("rotmat3dx, rotmat3dy, rotmat3dz", ROT)], "runtime monitors: reference matrices and algebraic laws over generated workloads")
p("C03", "Orbit integrals and conic relations agree with the geometry of the orbit",
  f"Period, semi-major axis, semi-parameter, mean motion, angular momentum, eccentricity vector, conic radius and apsides returned for any elliptic, hyperbolic or parabolic orbit (where defined) equal their two-body values {TOL}. Inverse relations undo each other and the integrals keep their values along the orbit. Scalars, Python numbers, batches and broadcast shapes give the same numbers.",
  ["inputs"], "every conic type, eccentricity regime, unit system and broadcast shape",
  "Tests evaluate each formula at a few points with small integers; conservation along an orbit and inverse relations are universally quantified.",
  [INT], [("orb_period ... a_from_pe", INT)], "runtime monitors: extended-precision reference and conservation laws along orbits")
p("C04", "Kepler-equation residuals, anomalies and their derivatives are exact",
  f"The elliptic, hyperbolic and universal Kepler-equation residuals, the derivative functions dE and dH, the mean anomalies and the generalized anomaly equal their defining formulas {TOL}, for all anomalies, eccentricities, signs and unit systems. The returned derivatives are the derivatives of the returned residuals. Along a true orbit the universal residual vanishes at the generalized anomaly of the arc.",
  ["inputs"], "all anomalies over decades and signs, all eccentricities, arcs of all conic types",
  "Tests check a few fixed anomalies; the agreement of residual, derivative and anomaly over whole orbits is unsampled.",
  [KEP], [("kepler_equ_elps/hypb/uni, dE, dH, mean_anomaly_*, generalized_anomaly", KEP)], "runtime monitors: extended-precision reference over generated workloads")
p("C05", "The elliptic Kepler solver returns the root for every anomaly and eccentricity",
  "For every finite mean anomaly and every eccentricity in [0, 1), the elliptic solver's answer satisfies Kepler's equation to the requested tolerance or to what the working precision allows, and with the default tolerance it equals the true root to the accuracy the tolerance and conditioning imply. The solution is odd in the mean anomaly, increases with it and advances by one turn per turn. Scalars, vectorised batches and iteration budgets that suffice give the same root.",
  ["inputs", "configurations"], "M over many decades, signs and turns x e from 0 to one ulp below 1 x tolerances and iteration budgets",
  "Tests solve a small grid of M and e; convergence near e = 1, near multiples of pi and for many turns is unsampled.",
  [KEP], [("solve_kepler_elps", KEP)], "runtime monitors: residual and root oracles over generated workloads")
p("C06", "The hyperbolic Kepler solver returns the root for every valid input",
  "For every finite hyperbolic mean anomaly and every eccentricity above 1, the hyperbolic solver's answer satisfies the hyperbolic Kepler equation to the requested tolerance or to what the working precision allows, and equals the true root to the accuracy this implies. The solution is odd in the mean anomaly and increases with it. Scalars, vectorised batches and iteration budgets that suffice give the same root.",
  ["inputs", "configurations"], "N over twenty decades and signs x e from one ulp above 1 to 1000 x tolerances and budgets",
  "Tests solve a few moderate cases; overflow, tiny N near e = 1 and huge N are unsampled.",
  [KEP], [("solve_kepler_hypb", KEP)], "runtime monitors: residual and root oracles over generated workloads")
p("C07", "The universal Kepler solver returns the root for every conic and flight time",
  "For every elliptic, parabolic or hyperbolic orbit, position on it, unit system and flight time of either sign, the universal solver's answer satisfies the universal Kepler equation to the requested tolerance or to what the working precision allows, and equals the true universal anomaly to the accuracy this implies. Zero flight time gives zero, and reversing time and motion negates the answer. Scalars, vectorised batches and iteration budgets that suffice give the same root.",
  ["inputs", "configurations"], "conic type x position x unit system x flight time up to 1000 revolutions x tolerances and budgets",
  "Tests solve a few arcs in canonical units; hyperbolic, near-parabolic and multi-revolution arcs are unsampled.",
  [KEP, UNI], [("solve_kepler_uni", KEP), ("ufunc1, ufunc2, ufunc3", UNI)], "runtime monitors: residual and root oracles over generated workloads")
p("C08", "Every solver and propagator call returns, whatever it is given",
  "Every call of a Kepler solver, of the Kepler propagator or of a step-limited numerical propagator returns after a bounded number of steps for any input: valid, unphysical, infinite, NaN, subnormal, or with an unreachable tolerance. The iteration budget bounds the work even when the tolerance cannot be met, and running out of integration steps is reported as an error. Bad rows of a batch do not disturb the answers of the other rows.",
  ["inputs", "configurations", "histories"], "batches of valid and hostile inputs with unreachable tolerances and every iteration or step budget",
  "Termination is a statement about all inputs; the tests only make calls that return.",
  [KEP, PRK, COW], [("cond_fn / body_fn of the three solvers", KEP), ("max_steps", COW)], "runtime monitors: CPU-time progress watchdog and neighbour comparison under hostile batches")
p("C09", "Universal functions equal their series for every argument",
  f"U0 to U5 equal the universal-function series {TOL} for every universal anomaly and every reciprocal semi-major axis: positive, negative, zero and arbitrarily close to zero. They satisfy the identities relating neighbouring orders, and each is the derivative of the next with respect to the anomaly. sigma equals r.v / sqrt(mu).",
  ["inputs"], "alpha chi^2 over 16 decades of both signs and exactly zero, scalars and batches",
  "Tests evaluate alpha = 1, 0, -1 at a few points; cancellation between branches is unsampled.",
  [UNI], [("ufunc0 ... ufunc5, sigma_fn", UNI)], "runtime monitors: extended-precision series and identities over generated workloads")
p("C10", "The Kepler propagator returns the true two-body state at every epoch",
  f"For every initial state with non-zero angular momentum, gravitational parameter and list of epochs of either sign, the Kepler propagator returns for each epoch the position and velocity of the two-body motion {TOL}. Energy, angular momentum and eccentricity vector keep their initial values. Each row depends on its own epoch only, and rows come back in the order of the epochs.",
  ["inputs"], "orbits over conic type x inclination x unit system x flight time of either sign up to many revolutions",
  "Tests propagate two or three orbits; accuracy for hyperbolic, near-parabolic and tiny or huge orbits is unsampled.",
  [PRK, KEP, LAG, UNI], [("kepler, _lagrange_prop", PRK), ("solve_kepler_uni", KEP)], "runtime monitors: independent extended-precision two-body propagator")
p("C11", "Kepler propagation composes, reverses and repeats with the period",
  f"Propagating by t1 and then by t2 gives the same state as propagating by t1 + t2, propagating forth and back returns to the start, zero time is the identity and one period of an ellipse returns to the start, all {TOL}. Permuting or repeating epochs permutes or repeats the rows.",
  ["inputs", "histories"], "sequences of two and three propagator calls over all conic types and both time directions",
  "A group law quantifies over all states and pairs of times; tests check single propagations.",
  [PRK, KEP, LAG, UNI], [("kepler", PRK)], "runtime monitors: algebraic laws over recorded call histories")
p("C12", "Lagrange coefficients map the initial state to the final state",
  f"The Lagrange coefficients F, G, Ft and Gt equal their definitions and satisfy F Gt - Ft G = 1 {TOL} for every arc of every conic. With the universal functions of the arc they map the initial position and velocity to the final ones.",
  ["inputs"], "arcs over conic type x unit system x flight time of either sign",
  "Tests check the formulas at a few hand-made numbers.",
  [LAG, UNI], [("lagrange_F, lagrange_G, lagrange_Ft, lagrange_Gt", LAG)], "runtime monitors: extended-precision reference arcs and the unit-determinant law")
p("C13", "The two-body state transition matrix is the derivative of the flow",
  f"For every arc of every conic, the 6x6 state transition matrix and its four 3x3 blocks equal the derivative of the final state with respect to the initial state {TOL}. The matrix is symplectic, is the identity for a vanishing arc, and the matrices of consecutive arcs multiply to that of the whole.",
  ["inputs", "histories"], "arcs over conic type x unit system x flight time of either sign, pairs of consecutive arcs",
  "Tests check shapes and a few numbers; correctness of all 36 entries for every arc is unsampled.",
  [STM, UNI], [("prpr0, prpv0, pvpr0, pvpv0, dxdx0, C_func", STM)], "runtime monitors: differentiated reference flow, finite differences and structural laws")
p("C14", "Classical elements of a state are in range and in the right quadrant",
  f"For every state with non-zero angular momentum the classical elements are finite, have the shape of the batch, angles lie in [0, 2 pi] (inclination in [0, pi]), and semi-parameter and eccentricity equal those of the orbit {TOL}. Where an angle is geometrically defined it is the right one, quadrant included; for circular and equatorial orbits the returned angles still describe the given position, or the combination that is defined. The single-element functions agree with this.",
  ["inputs"], "states over conic type x inclination regime (generic, polar, equatorial, retrograde) x unit system, axis-aligned degenerate states",
  "Tests convert a few textbook states; half of all states fall in quadrants that are not sampled.",
  [ELE], [("rv2coe, true_anomaly, argument_of_periapsis, right_ascension, inclination", ELE)], "runtime monitors: geometric oracle in extended precision over generated states")
p("C15", "Elements and states convert into each other without loss",
  f"The state returned for any set of classical elements of any conic equals the reference state {TOL}; converting a state to elements and back reproduces the state, and converting elements to a state and back reproduces the elements where they are defined. Any mixture of scalar and array elements broadcasts to the same rows.",
  ["inputs", "histories"], "element sets and states over conic type x inclination regime x unit system x broadcast mixtures",
  "Round trips quantify over the whole element space; tests round-trip a few.",
  [ELE, ROT], [("coe2rv, rv2coe", ELE)], "runtime monitors: round-trip histories judged against an extended-precision reference")
p("C16", "Path checks decide the geometry of the transfer correctly",
  "Short way or long way, passage through periapsis, periapsis below a minimum radius, and the maximal revolution number are decided as the exact geometry of the transfer decides them, for every transfer not within rounding of the decision boundary. Reversing the motion turns a short way into a long way. The periapsis decision agrees with the closest point of the flown orbit.",
  ["inputs"], "transfers with end points anywhere in the plane or flown by the reference propagator, all conics and unit systems",
  "Tests use a few planar examples; the decision quantifies over all end points and directions of motion.",
  [PATH], [("nmax_by_periapsis, is_short_way, pass_perigee, rp_islower_rmin", PATH)], "runtime monitors: exact geometric oracle and flown arcs")
p("C17", "Numerically propagated trajectories follow the true solution",
  "In every propagation mode (fixed steps, adaptive steps, custom epochs, to final, generic) with default settings, each saved state agrees with the true solution of the given dynamics within a small multiple of the integration tolerance accumulated over the arc. This holds for point-mass motion, for zonal perturbations and for user-defined dynamics, forward and backward in time, and for added variational equations; energy and the axial angular momentum are conserved accordingly.",
  ["inputs", "programs", "configurations"], "orbits over conic type x unit system x direction x mode, oblate bodies, user-defined dynamics",
  "Tests propagate one or two Earth orbits for one period.",
  [COW, GRAV], [("cowell_method, fixed_steps, adaptive_steps, custom_steps, to_final", COW)], "runtime monitors: two-body reference and an independent integrator over recorded trajectories")
p("C18", "Saved outputs follow the schedule the caller asked for",
  "Every propagation returns exactly the schedule asked for: fixed steps at t0 + k dt with the last one at the final time, every accepted step of an adaptive run with unused slots filled as documented by the integrator (infinity), the requested epochs in order, or the final time only. Times are monotone in the direction of propagation, start and end where asked, every saved state belongs to its time, and states have the shape of the initial state. Step budgets are honoured: enough steps always suffice, too few raise instead of returning a wrong trajectory.",
  ["inputs", "configurations", "schedules"], "propagation directions, step sizes, budgets and epoch lists (ends, repeated, clustered, invalid)",
  "Tests look at one schedule per mode.",
  [COW], [("SaveAt and max_steps of fixed_steps, adaptive_steps, custom_steps, to_final", COW)], "runtime monitors: schedule contract over recorded trajectories with a closed-form solution")
p("C19", "Terminating events stop the propagation when, and only when, they should",
  "The radius event's condition is the distance from the origin minus the threshold, changing sign exactly at it, for any state length and calling convention the integrator uses. A propagation with an event ends at the first step at which (or, with a root finder, at the instant when) the condition becomes true and reports it; without a crossing it runs to its final time. States saved before the event lie on the undisturbed trajectory, and user-defined, directed and combined conditions are honoured likewise.",
  ["inputs", "programs", "histories"], "orbits that do or do not descend through a threshold x mode x stop at step or located, user-defined conditions",
  "Tests fly one decaying orbit; absence of missed or spurious stops quantifies over trajectories.",
  [EVT, COW], [("radius_islow", EVT), ("event of OrbDynx passed to the integrator", COW)], "runtime monitors: online event-history checker against closed-form crossings")
p("C20", "Propagation uses exactly the dynamics, arguments and settings it was given",
  "Every propagation mode evaluates the caller's dynamics only at times within the propagation interval, with the caller's argument tree, starting from the caller's initial state. The given solver, step-size controller, first step, step budget, schedule and event are the ones used: the result equals that of the integrator called directly with these settings, and settings left out take their documented defaults. The dynamics object is not modified.",
  ["inputs", "configurations", "histories"], "random states, argument trees and final times x mode x solver / controller / first step / budget / schedule / event",
  "Tests only look at final numbers of default settings; what the dynamics are called with is not observed.",
  [COW], [("OrbDynx, cowell_method and its four front ends", COW)], "runtime monitors: recorded evaluation histories of instrumented dynamics, differential run of the integrator", observe=["calls of the vector field (jax debug callbacks in the harness)"])
p("C21", "Results do not depend on the units of length and time",
  "Changing the units of length and time of all inputs (by powers of two) changes every result by exactly the power of the units that its dimension requires, up to rounding and solver tolerance, for every public function with dimensional arguments and for the propagators. Dimensionless results and decisions do not change.",
  ["inputs", "configurations"], "every public function x random situation x random change of length and time units",
  "Tests use canonical or km units per test; invariance relates two runs and all units.",
  [INT, KEP, UNI, LAG, STM, ELE, PATH, PRK, GRAV], [("all formulas; absolute tolerances and thresholds", KEP)], "runtime monitors: metamorphic pairs of executions under change of units")
p("C22", "Results do not depend on the orientation of the reference frame",
  "Rotating all vector inputs rotates vector and matrix results and leaves scalar results and decisions alone, for every public function of vectors that has no preferred axis; functions with the z axis preferred have this for rotations about it, and the ascending node shifts by the rotation. Reflections and time reversal act as mechanics requires. Zonal gravity and numerically propagated trajectories obey the same laws.",
  ["inputs", "configurations"], "every public function of vectors x random situation x random rotation, axis permutation, mirror image, time reversal",
  "Tests use states near the coordinate axes; invariance relates two runs and all rotations.",
  [INT, LAG, STM, ELE, PATH, PRK, GRAV], [("all vector formulas", INT)], "runtime monitors: metamorphic pairs of executions under change of frame")
p("C23", "Results have the precision of their inputs, whatever type they come in",
  "Double-precision inputs give double-precision results, accurate to double precision, from every public function and propagator; single-precision inputs give results accurate to single precision, also when double precision is enabled, and nothing is silently computed at lower precision than its least precise input. Integers (small enough that integer arithmetic does not overflow), Python numbers, NumPy and JAX arrays and mixtures of them and of precisions are accepted everywhere and give the value of the equal floating-point input.",
  ["inputs", "configurations"], "every public function x precision mode x input type (Python, NumPy, JAX; integer, single, double and mixtures)",
  "Tests run in one precision mode with float literals; type handling quantifies over all mixtures.",
  [KEP, UNI, INT, ELE, STM, LAG, PATH, PRK, GRAV, ROT], [("dtype promotion in all functions", UNI)], "runtime monitors: differential executions over input types against an extended-precision reference")
p("C24", "Compiled, vectorised and one-by-one calls give the same results",
  "Every public function and propagator gives the same results, up to rounding and solver tolerance, called eagerly, compiled, vectorised over any subset of its arguments, nested in a loop or with broadcast batch shapes, and every row of a batch equals the call with that row alone. No combination of these transformations fails where the plain call works. A row's result does not depend on the other rows of the batch.",
  ["inputs", "programs", "configurations"], "every public function x transformation (jit, vmap over subsets of arguments, scan, broadcast shapes) x random batches",
  "Tests compile a few functions; equality of all transformed variants is a statement about all programs.",
  [KEP, UNI, INT, ELE, STM, LAG, PATH, PRK, COW, GRAV, ROT], [("while_loop solvers, broadcasting", KEP), ("cond-free formulas", UNI)], "runtime monitors: differential executions of the same call under program transformations")
p("C25", "Derivatives through every function are the derivatives of the true result",
  "Forward- and reverse-mode derivatives of every smooth public function, of the Kepler solvers and of the Kepler propagator with respect to every continuous argument, and reverse-mode derivatives through the step-limited numerical propagators, are finite and equal the derivatives of the exact mathematical result, up to rounding and solver tolerance. They agree with each other and also hold under compilation and vectorisation, for every conic including the parabola where the function is smooth there.",
  ["inputs", "programs"], "every smooth public function and propagator x random situation x random direction, forward and reverse mode",
  "Tests differentiate hardly anything; branches that give the right value but a wrong or NaN derivative pass them.",
  [KEP, UNI, INT, ELE, STM, LAG, PRK, COW, GRAV, ROT], [("_refine_root", KEP), ("near-parabolic branches", UNI)], "runtime monitors: differentiated executions against differences of extended-precision references")
p("C26", "Calls are pure: no call changes its inputs, global settings or later results",
  "No public call modifies its arguments (arrays, argument dictionaries, dynamics objects), default values, the precision or debugging configuration or other process-wide settings, or prints anything, and the same holds for importing the package. Repeating a call gives bit-identical results whatever calls, successes or failures, happened in between, in a fresh process as well; concurrent calls from several threads give the results they give alone. No traced value escapes from a transformed call.",
  ["histories", "schedules", "inputs"], "random histories of calls (valid, hostile, failing, transformed) and threads running them concurrently",
  "History and schedule independence quantify over all call sequences; tests call each function once in isolation.",
  [INIT, COW, EVT, GRAV, KEP, PRK], [("mutable default arguments", COW), ("default args dictionaries", GRAV)], "runtime monitors: recorded call histories, snapshots of arguments and configuration, concurrent replay")
p("C27", "The public interface offers every documented name and default",
  "Every documented name is importable from where it is documented, also by star import, and accepts its arguments by position and by its documented name in the documented order. Every argument with a documented default may be left out, and then behaves as if the default had been given, for all values of the other arguments. The re-exported integrator names are the integrator's own.",
  ["inputs", "configurations"], "every public function x every subset of optional arguments left out x positional and keyword calls x random other arguments",
  "Tests omit a default once or twice; equivalence for all other arguments and all combinations is unsampled.",
  [INIT, S + "twobody/__init__.py", S + "gravity/__init__.py", S + "prop/__init__.py", S + "diffeq/__init__.py", S + "events/__init__.py", S + "utils/__init__.py", KEP, COW], [("signatures and __all__ lists", INIT)], "runtime monitors: differential executions of call forms over random arguments")

EVIDENCE_NOTE = ("Held on the executions observed (numbers in the evidence file), not proved. Trusts the extended-precision (80-bit) "
                 "reference in vmon/oracle.py, NumPy and JAX's elementary functions to a few ulps.")


def main():
    done = [q for q in P if os.path.exists(os.path.join(HERE, "vmon", "props", q["pid"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            if q not in done:
                continue
            f.write(json.dumps(dict(
                id=q["pid"], title=q["title"], statement=q["statement"],
                quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"],
                anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                             observe_at=q["observe"] or ["return values of the public functions"], hook_needed=None))) + "\n")
    man = dict(
        version=1,
        setup_cmd="./setup.sh",
        checks=[dict(property=q["pid"], quick_cmd=f"./check.sh {q['pid']} quick", thorough_cmd=f"./check.sh {q['pid']} thorough",
                     evidence_file=f"evidence/{q['pid']}.json", technique=q["technique"], level="exploration",
                     level_note=q["level_note"] or EVIDENCE_NOTE) for q in done],
        not_applicable=[],
        notes="No hooks in /repo: every monitor observes calls and results at the public boundary, or instruments dynamics and events that the harness itself passes in.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
