"""C10 - both velocities lie in the plane of motion and have the same angular momentum."""
from .. import orbit

NEEDS_SYMPY = True
RULES = {"C10.orbit": "in the normal form v = a r1 + b r2 + g (r1 x r2) of the returned velocities g1 = g2 = 0 and b1 + a2 = 0, for every value of the iterates and every branch"}
EXPLANATION = ("The velocity formulas of every feasible return are rewritten to coefficients over r1, r2 and r1 x r2 in a radical extension of a rational function field "
               "(iterates, roots and undecided selections are free unknowns, split when needed) and the differences are tested for being identically zero; "
               "a difference that is not zero is reported after it has been separated at generic points of the path.")
ASSUMPTIONS = ["valid, non-collinear inputs", "exact arithmetic", "a violation is reported only when a generic point of the path separates the two sides"]
FLOOR = 15
FLOOR_UNITS = 15


def units(root, tier):
    return orbit.flag_units(root, tier)


def run_unit(u, root, tier):
    return orbit.run_solver(u[0], root, 0, "C10", tier, u[1:], "the returned velocities leave the plane of motion or have different angular momenta")
