#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table, so that they stay in step."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
S = "src/lamberthub/"
ALL = [S + "__init__.py"] + [S + x for x in (
    "ecc_solvers/avanzini.py", "p_solvers/battin.py", "p_solvers/gauss.py", "p_solvers/jiang.py", "p_solvers/pan.py",
    "regularization/delatorre.py", "series_solvers/thorne.py", "universal_solvers/arora.py", "universal_solvers/der.py",
    "universal_solvers/gooding.py", "universal_solvers/izzo.py", "universal_solvers/mcelreath.py",
    "universal_solvers/negrete.py", "universal_solvers/vallado.py")]
UT = [S + "linalg.py"] + [S + "utils/" + x for x in ("angles.py", "assertions.py", "elements.py", "kepler.py", "stumpff.py")]


def P(id, title, statement, over, text, tests, files, mech, observe=(), state=(), na=None, technique=None, note=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                observe=list(observe), state=list(state), na=na, technique=technique, note=note)


GVG = "abstract interpretation of the whole call graph into a gated value graph; "
TRUST = (" Trusts the documented behaviour of numpy/scipy calls and this checker's model of Python; "
         "floating-point rounding is not modelled.")

PROPS = [
    P("C01", "Invalid input is always refused with ValueError",
      "Every solver refuses, by raising ValueError and never by returning, a gravitational parameter or a time of flight that is not "
      "a positive finite number (nan included), a negative number of revolutions, a position vector that is null, has a nan or infinite component or is not a three-component vector, and two identical "
      "position vectors. The refusal does not depend on the values of the other arguments or on the flags. No valid problem is "
      "refused because of the value of one physical argument alone.",
      ["inputs", "configurations"], "all values of all arguments of all 14 solvers, every flag combination",
      "Tests try one bad value per class with default flags; a guard that is skipped under some flag, some M or some other vector "
      "goes unseen.", ALL + [S + "utils/assertions.py"],
      [("parameter validation helper", S + "utils/assertions.py")], ["exception class of the solver call"],
      technique=GVG + "reachable-outcome analysis per class of invalid input",
      note="For each solver and class of invalid input all inlined paths are explored symbolically: no path returns, all end in "
           "ValueError." + TRUST),
    P("C02", "Solver registries are true about multi-revolution support",
      "ALL_SOLVERS lists every exported solver exactly once and the other registries are duplicate-free subsets of it. A solver that "
      "is not in MULTI_REV_SOLVERS answers every M >= 1 with ValueError and never with a transfer. A solver in MULTI_REV_SOLVERS "
      "answers M >= 1 with velocities that depend on M, or with ValueError when no such transfer exists for the given time of flight.",
      ["inputs", "configurations"], "all solvers, all M >= 0, all flags",
      "Tests call each registry member on a few fixed problems; a solver that ignores M or answers it silently is only seen if a "
      "reference value is stored for it.", ALL, [("registries", S + "__init__.py")], ["return value or exception for M >= 1"],
      technique=GVG + "outcome and dependence analysis for symbolic M",
      note="Paths for M>=1 (symbolic) are enumerated per solver; dependence of the result on M is a slice of the value graph." + TRUST),
    P("C03", "No unconverged result is ever returned",
      "A solver returns velocities only when the convergence test of its iteration, built on the caller's atol and rtol, was met "
      "within maxiter iterations. When the iterations run out first, or the root finder reports failure, the call raises ValueError or "
      "RuntimeError instead of returning the last iterate. This holds for the iterations inside helper routines as well.",
      ["inputs", "configurations"], "all inputs, all maxiter >= 1, all tolerances",
      "Tests use the default maxiter on problems that converge; the exit taken when the budget runs out is hardly executed.",
      ALL, [("loop exits and exhaustion raises", "every solver module")], ["return versus raise"],
      technique=GVG + "must-pass-through analysis of loop exits to returns",
      note="For every maxiter-bounded loop and root-finder call feeding a return value, each feasible loop exit that reaches a return "
           "must carry a satisfied tolerance comparison on loop iterates in its path condition." + TRUST),
    P("C04", "Iteration budget respected and iteration count truthful",
      "The caller's maxiter is the limit of every search loop and root finder behind a result. The number of iterations reported with full_output is "
      "the number of passes made by the search loops that produced the velocities (of one of the two where both solutions are computed); it is maxiter when a fall-back root finder had to finish the "
      "search, and zero or one when a closed form gives the result.",
      ["inputs", "configurations"], "all inputs, all maxiter >= 1",
      "Tests print the count or compare it with nothing; an off-by-one, a stale counter or a count from the wrong loop passes.",
      ALL, [("iteration counters", "every solver module")], ["third element of the full output", "number of iterations performed"],
      technique=GVG + "loop-bound and induction-variable analysis",
      note="The reported count is matched, as a term of the value graph, with the trip count of the loop whose exit dominates the "
           "return." + TRUST),
    P("C05", "All solvers share one interface and result shape",
      "All solvers take the same parameters in the same order with the same meaning of the defaults (M=0, prograde, low path, no full "
      "output). Every call that returns yields (v1, v2), and with full_output=True yields (v1, v2, number of iterations, time per "
      "iteration), where v1 is the velocity at the initial and v2 at the final position, both three-component arrays. No flag or input changes that shape.",
      ["inputs", "configurations"], "all solvers, all inputs and flags",
      "Tests unpack the result on the main path only; early returns and fall-back paths may have another shape.",
      ALL, [("signatures and return statements", "every solver module")], ["structure of the returned tuple"],
      technique=GVG + "type and shape propagation over every return path",
      note="Signature comparison on resolved functions; kind and structure of every returned value on every feasible return path." + TRUST),
    P("C06", "Requesting the full output does not change the answer",
      "For every problem, full_output=True and full_output=False give the same velocities and fail in the same cases with the same "
      "kind of error. Timing measurements never influence velocities, iteration counts or failures.",
      ["inputs", "configurations"], "all inputs and other flags; a relation between two runs",
      "Tests compare velocities against tables mostly with one value of the flag.", ALL,
      [("full_output branches and clock reads", "every solver module")], ["velocities and exceptions of paired calls"],
      technique=GVG + "coinductive equality of the two value graphs, clock taint",
      note="The value graphs of the two runs are proved equal (bisimulation over loops), raise conditions included." + TRUST),
    P("C07", "Solvers are pure functions of their arguments",
      "A call to a solver or to a utility function never modifies the arrays it is given, never returns an array that shares memory with an "
      "argument, and leaves no state behind that a later call can see. The answer depends on the arguments alone, so repeated calls in "
      "any order give the same answer.",
      ["inputs", "histories"], "all inputs and all sequences of calls",
      "Tests build fresh arrays for every call and never compare the arguments afterwards.", ALL + UT,
      [("absence of stores to arguments and globals", "whole package")], ["argument arrays after the call", "answers of later calls"],
      technique="interprocedural effect and alias analysis on the inlined call graph",
      note="Every store, in-place operation, global write and library effect reachable from an entry point is collected with alias tracking." + TRUST),
    P("C08", "Change of units",
      "If lengths are measured in another unit and times in another unit, with mu, positions and time of flight converted accordingly, every solver "
      "follows the same computation and returns the same velocities expressed in the new units. No hidden constant ties a solver to one system of "
      "units; only the convergence tolerances may be compared with dimensional quantities.",
      ["inputs"], "all inputs, all positive scale factors",
      "Tests use kilometres and seconds around a few bodies; a constant tuned to those units, or a missing normalisation, is invisible.",
      ALL, [("normalisation of inputs", "every solver module")], ["velocities of rescaled problems"],
      technique=GVG + "dimensional analysis (type inference of units) over loops",
      note="A unit (powers of length and time) is inferred for every term; sums, comparisons and transcendental arguments must be "
           "homogeneous, velocities must be L/T, for all loop iterations (fixed point)." + TRUST),
    P("C09", "Rotation of the problem about the polar axis",
      "Rotating both position vectors by any angle about the z axis rotates the returned velocities by the same angle. Swapping roles of the "
      "x and y directions has no effect on which solution is chosen; only the z axis defines the sense of motion.",
      ["inputs"], "all inputs, all rotation angles about z",
      "Tests compare a handful of fixed geometries.", ALL + UT, [("vector algebra", "every solver module")],
      ["velocities of rotated problems"],
      technique=GVG + "covariance type inference (scalars, vectors, axial vectors; which components may be read)",
      note="Each term is typed invariant or covariant under rotations about z; reading x or y components of a covariant "
           "vector is allowed only in combinations proved invariant." + TRUST),
    P("C10", "Both velocities lie in the plane of motion with the same angular momentum",
      "For every returned transfer the angular momentum r1 x v1 at departure equals r2 x v2 at arrival, and both velocities lie in the plane of the "
      "two position vectors. This holds for every M, sense, path and number of iterations performed.",
      ["inputs", "configurations"], "all inputs and flags, every converged or partial iterate",
      "Tests compare with tabulated velocities to 1e-4 or so for a handful of problems.", ALL + UT,
      [("velocity reconstruction", "every solver module")], ["r x v of the returned pair"],
      technique=GVG + "symbolic normal form of the velocity formulas, zero test of r1 x v1 - r2 x v2 in an algebraic function field",
      note="The closing formulas on every return path are rewritten over r1, r2, r1xr2 with scalar coefficients in a radical extension field, "
           "iterates left as free atoms; the difference is identically zero." + TRUST),
    P("C11", "Both velocities belong to one Keplerian orbit of the given mu",
      "For every returned transfer, (r1, v1) and (r2, v2) are states of one and the same Keplerian orbit about the given mu: same specific energy and same "
      "eccentricity vector. This holds for elliptic, parabolic and hyperbolic transfers, every M, sense and path.",
      ["inputs", "configurations"], "all inputs and flags",
      "Tests compare with tabulated velocities for a handful of problems; a wrong term that vanishes there survives.", ALL + UT,
      [("velocity reconstruction", "every solver module")], ["orbital elements of the returned states"],
      technique=GVG + "symbolic normal form of the velocity formulas, zero test of energy and eccentricity-vector differences",
      note="Same normal form as C10; (v1-v2) x h = mu (r1/|r1| - r2/|r2|) and equality of the energies are identities in the iterates." + TRUST),
    P("C12", "is_prograde selects the sense of motion",
      "With is_prograde=True the transfer has a non-negative z component of angular momentum, with is_prograde=False a non-positive one, for every solver, "
      "every M and path; the transfer angle is the one swept in that sense. Any truth value, a numpy boolean included, selects the same transfer as "
      "the Python boolean, and a transfer in a polar plane is accepted with both flags giving opposite senses.",
      ["inputs", "configurations"], "all geometries, both flags, all M",
      "Tests use a few geometries; a sign error in one quadrant or for polar planes is invisible.", ALL + UT,
      [("transfer angle and orbit normal", S + "utils/angles.py")], ["sign of (r1 x v1)_z"],
      technique=GVG + "case split on the sign of (r1 x r2)_z and sign analysis of the symbolic angular momentum",
      note="Per case, r1 x v1 = c (r1 x r2) with sign of c decided from the value graph." + TRUST),
    P("C13", "is_low_path selects between the two solutions only when there are two",
      "For M=0 the answer does not depend on is_low_path. For M >= 1, in a multi-revolution solver, the two values select different solutions. A numpy "
      "boolean selects the same solution as the Python boolean of the same truth value.",
      ["inputs", "configurations"], "all inputs, both senses",
      "Tests compare both paths for a couple of problems only.", ALL, [("path selection", "multi-revolution solvers")],
      ["velocities of paired calls"],
      technique=GVG + "coinductive comparison of the value graphs of the two selections",
      note="Equality for M=0 is proved; difference for M>=1 is the absence of a bisimulation, i.e. a necessary condition." + TRUST),
    P("C14", "Collinear positions are refused or handled, never answered with garbage",
      "Positions on opposite sides of the attractor (transfer angle of 180 degrees), for which the plane of motion is undefined, make every solver raise ValueError or "
      "RuntimeError. Positions on the same side (0 degrees) either raise or give velocities that do not come from a division by the null cross product.",
      ["inputs"], "all collinear pairs, any lengths, all flags",
      "Tests try one pair per solver.", ALL + [S + "utils/assertions.py", S + "utils/angles.py"],
      [("transfer angle assertions", S + "utils/assertions.py")], ["exception or finiteness of the answer"],
      technique=GVG + "reachable-outcome analysis under the assumption r1 x r2 = 0",
      note="Same exploration as C01 with the collinearity facts assumed." + TRUST),
    P("C15", "Failures are ValueError or RuntimeError, nothing else",
      "On valid input a solver call either returns or raises ValueError or RuntimeError. No path fails with an unassigned variable, a wrong number of "
      "arguments or values to unpack, a type error, an assertion, or a division by a zero iteration count.",
      ["inputs", "configurations"], "all valid inputs, flags, maxiter and tolerances",
      "Rare branches (exact hits, exhausted budgets, fall-backs) are not executed by the tests.", ALL + UT,
      [("all statements", "whole package")], ["exception class"],
      technique=GVG + "definite assignment, call arity, unpacking and exception-class analysis per feasible path",
      note="Every feasible path of every flag combination is classified." + TRUST),
    P("C16", "Compiled functions rest on nothing that exists in one execution mode only",
      "The package runs compiled just in time or interpreted (NUMBA_DISABLE_JIT=1), with the same choices and failures. No compiled function rests on behaviour of one "
      "mode only: tests for NaN or infinity, self-comparisons or NaN literals under fast-math flags (they are optimised away), truth values told apart by identity "
      "('is True'), module variables that are rebound or modified after import (frozen at compilation), calls of functions that are not compiled, integers that grow "
      "without bound, indices outside an array (unchecked when compiled), handlers for particular exceptions and computed messages, options that change the meaning.",
      ["inputs", "configurations"], "all inputs; compiled versus interpreted configuration",
      "The test suite runs in one of the two modes.", ALL + UT, [("jit wrapper and decorated functions", S + "linalg.py")],
      ["answers with and without compilation"],
      technique="lint of the functions compiled just in time (decorators, options and names resolved across modules; nested functions included)",
      note="Decides absence of the enumerated constructs on which the two modes differ; rounding-level differences are outside." + TRUST),
    P("C17", "Orbit conversion utilities are mutually consistent",
      "Converting between true, eccentric, hyperbolic and parabolic anomalies and back gives the starting anomaly, and every eccentricity >= 0 "
      "is served by exactly one branch. Converting orbital elements to a state gives position and velocity of the orbit with those elements, and rotation "
      "matrices preserve lengths.",
      ["inputs"], "all elements and anomalies", "Tests check a few sample angles.", UT,
      [("anomaly formulas", S + "utils/kepler.py"), ("element conversion", S + "utils/elements.py")], ["composition of the conversions"],
      technique="symbolic normal form of the conversion formulas and zero test of the composition",
      note="Identities are decided on the formulas extracted from the source." + TRUST),
    P("C18", "The benchmark report generator reproduces its data",
      "The report generator builds its script from the stored benchmark data alone: every key it reads is written by the benchmark, data are embedded so that any text "
      "survives, and no file outside the requested output is modified.",
      ["inputs", "configurations"], "all benchmark data sets", "No test runs the generator.", ["scripts/generate_benchmark_report.py"],
      [("template filling", "scripts/generate_benchmark_report.py")], ["the generated file"],
      technique="data-flow check of template substitution and effect analysis of the script",
      note="Decides the embedding and effects, not the look of the report." + TRUST),
    P("C19", "The stopping equation of a solver is Kepler's equation of the conic it returns",
      "Whatever value the unknown of the iteration has, the time of flight that satisfies the equation the solver's stopping test drives to zero is the time, by "
      "Kepler's equation, in which a body moves along the returned conic from r1 with v1 to r2 with v2, M full revolutions included. A solver that stops on "
      "convergence therefore returns the transfer of the requested duration: elliptic and hyperbolic, the short and the long way round, every M and path.",
      ["inputs", "configurations"], "all valid inputs, flags and values of the iterate (at convergence or not)",
      "Tests compare with tabulated velocities for a handful of problems; a term that vanishes or is small there, or a branch they do not take, is not exercised.",
      ALL + UT, [("time equation and velocity reconstruction", "every solver module")], ["time of flight along the returned conic against the requested one"],
      technique=GVG + "extraction of the stopping equation (slice from the exit tests) and zero test against Kepler's equation of the extracted velocity formulas",
      note="The stopping equation is the backward slice of the exit test of the iterations the velocities depend on (root-finder callback or contour integrand where there is one); "
           "its equality with Kepler's equation of the velocity formulas is an identity in the free iterate and is tested at generic points: one-sided, points only refute." + TRUST),
    P("C20", "Returned velocities carry r1 to r2 in the time of flight",
      "Propagating (r1, v1) along its Keplerian orbit for tof, with M full revolutions, arrives at r2 with velocity v2 within a tolerance set by atol and rtol.",
      ["inputs", "configurations"], "all valid inputs", "Tests check a handful of tabulated problems.", ALL, [("time equation", "every solver module")],
      ["propagated state"], na="whether the root of the time equation found by floating-point iteration is accurate quantifies over runtime values; no sound "
      "static bound is in reach (the structural clauses are claimed as C03, C08, C10, C11)"),
    P("C21", "All solvers agree with each other",
      "For the same valid problem all solvers of ALL_SOLVERS that return give the same velocities within the tolerances.",
      ["inputs"], "all valid inputs and pairs of solvers", "Tests compare with common tables for a few problems.", ALL,
      [("14 independent formulations", "every solver module")], ["differences of velocities"],
      na="numerical agreement of different iterative algorithms quantifies over runtime values; equivalence of their different "
      "transcendental time equations is not decidable from the shape of the code"),
    P("C22", "Special functions and series are accurate",
      "The Stumpff functions, hypergeometric and Kepler-equation routines are accurate for every argument, the neighbourhood of the parabolic case included, and their series stop.",
      ["inputs"], "all real arguments", "Tests sample a few arguments.", [S + "utils/stumpff.py", S + "utils/kepler.py"],
      [("series and closed forms", S + "utils/stumpff.py")], ["relative error"],
      na="truncation and rounding error of series are runtime quantities, as is the number of terms needed for the floating-point stopping test"),
    P("C23", "Every feasible problem is solved",
      "For every feasible valid problem a robust solver finds the transfer with the default maxiter and tolerances instead of raising.",
      ["inputs"], "all feasible valid problems", "Tests cover a few problems.", ALL, [("initial guesses and iterations", "every solver module")],
      ["return versus raise"], na="convergence of nonlinear iterations from their initial guesses quantifies over runtime values"),
    P("C24", "Integer inputs give the answer of the equal floating-point inputs",
      "The gravitational parameter, the time of flight and the position components may be given as integers (Python integers, numpy integers, integer arrays), in any "
      "system of units in which they fit 64 bits: every solver computes with them in floating point and returns floating-point velocities, the same as for the equal "
      "floating-point inputs. No product or power of them is formed in integer arithmetic, where it would wrap silently (kilometres work, metres do not), and no "
      "result is stored in an array that has taken over their integer type, where it would be truncated.",
      ["inputs", "configurations"], "all integer inputs up to 64 bits", "Tests pass floating-point arrays.", ALL + UT,
      [("products of positions", S + "linalg.py"), ("arrays made from the arguments", "every solver module")], ["types and values of the velocities for integer and equal floating-point inputs"],
      technique="abstract interpretation of numeric types (interprocedural, closures and root-finder callbacks followed, fixed point over loops)",
      note="Every operation reachable from every solver is typed. Unsigned and shorter integer types are outside." + TRUST),
    P("C25", "Reflection of the problem in the reference plane",
      "Changing the sign of the z component of both positions changes the sign of the z component of both velocities and nothing else: the same sense of motion, number of "
      "revolutions, path and number of iterations, and the same failures. Together with the rotation about the polar axis this covers the point reflection (r1, r2 replaced "
      "by -r1, -r2). No solver treats positions above the reference plane differently from positions below it.",
      ["inputs", "configurations"], "all valid inputs and flags", "Tests use positions above the plane or a handful of tabulated ones.", ALL + UT,
      [("sense of motion and plane geometry", S + "utils/angles.py"), ("velocity reconstruction", "every solver module")], ["velocities of the reflected problem"],
      technique=GVG + "type inference of parities (even, odd, vector, pseudo-vector) under z -> -z; closed forms compared at generic points",
      note="Coinductive over loops, so any number of iterations is covered." + TRUST),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": p["state"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        have = os.path.exists(os.path.join(HERE, "lh", "rules", p["id"] + ".py"))
        if p["na"] or not have:
            na.append({"property": p["id"], "reason": p["na"] or "check under construction"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 9)\"", "checks": checks,
               "not_applicable": na,
               "notes": "Pure static analysis of /repo's working tree; nothing of /repo is imported or run, no hooks are needed. "
                        "Python standard library; C10/C11-like checks use sympy polynomial rings of python3-vt."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
