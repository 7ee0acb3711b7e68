"""C12 - is_prograde selects the sense of motion."""
from .. import orbit
from ..run import *
from .C13 import same

NEEDS_SYMPY = True
RULES = {
    "C12.sense": "r1 x v1 = b1 (r1 x r2) where b1 has the sign of (r1 x r2)_z for prograde and the opposite sign for retrograde motion; a polar plane counts as (r1 x r2)_z > 0",
    "C12.generic": "the same where the sign of the iterates is needed: b1 does not vanish (C11), its sign is read off at generic points of every case",
    "C12.truth": "numpy booleans select the same transfer as the Python booleans, compiled or not",
}
EXPLANATION = ("The coefficient b1 of r2 in the normal form of v1 is derived for every feasible return, flag value and orientation of r1 x r2 and its sign is decided from the "
               "signs of its factors; the value graphs for numpy booleans are compared coinductively with those for Python booleans.")
ASSUMPTIONS = ["valid, non-collinear inputs", "a violation of C12.sense is reported only with generic points of the path that show it"]
FLOOR = 60
FLOOR_UNITS = 15


def units(root, tier):
    return orbit.flag_units(root, tier) + [(n, "truth") for n in solver_names(Interp(root))]


def run_unit(u, root, tier):
    if u[1] != "truth":
        return orbit.sense(u[0], root, tier, u[1:])
    name = u[0]
    out = []
    I = Interp(root)
    f = underlying(find_solver(I, name))
    here = (f.module.rel, f.node.lineno, f.name)
    for comp in (True, False):
        I.compiled = comp
        for M in (0, "pos"):
            for p, q in ((True, "np1"), (False, "np0")):
                a = SolverRun(root, name, I=I, M=M, prog=p)
                b = SolverRun(root, name, I=I, M=M, prog=q)
                out += same(Bisim(I.U), "C12.truth", name, "M=%s prograde=%s/%s%s" % (M, p, q, "" if comp else " interpreted"), a, b, here)
    I.compiled = True
    return out
