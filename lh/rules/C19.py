"""C19 - the equation a solver drives to zero is Kepler's equation of the conic it returns."""
import random

from .. import kep, orbit
from ..interp import Interp
from ..run import Rec, SolverRun, flat_values

RULES = {"C19.kepler": "with the iterate held at any value, the flight time that satisfies the stopping equation of the solver is the flight time, by Kepler's equation, along the returned conic from r1 to r2"}
EXPLANATION = ("For every feasible return the stopping equation (the soft exit tests of the iterations the velocities depend on, the callback of the root finder, the integrand of the contour) "
               "and the velocity formulas are read from the value graph.  The iterate is held at a value, the stopping equation is solved for the flight time, and the result is compared "
               "with Kepler's equation of the conic defined by the velocity formulas.  Both sides are functions of the same free unknowns, so the identity is tested at generic points.")
ASSUMPTIONS = ["valid, non-collinear inputs away from the parabola", "series are evaluated up to their own stopping rule; points where a truncated series has not converged are left out",
               "generic-point identity test: one-sided, a difference at isolated or measure-zero inputs is not seen"]
FLOOR = 40
FLOOR_UNITS = 40


def units(root, tier):
    return orbit.flag_units(root, tier)


def run_unit(u, root, tier):
    name, M, prog, low = u
    r = SolverRun(root, name, I=Interp(root), M=M, prog=prog, low=low, fo=False)
    unit = "%s M=%s prograde=%s low=%s" % (name, M, prog, low)
    out = []
    n = 40 if tier == "quick" else 160
    for j, (st, v) in enumerate(r.rets):
        fl = list(flat_values(v))[:2]
        if len(fl) < 2:
            continue
        E = kep.Equation(r.U, st.pc, fl[0], fl[1], M)
        out += judge(E, "%d" % j, unit, n, M, prog, getattr(fl[0], "site", None))
    return out


def judge(E, j, unit, n, M, prog, site):
    ok, bad, near = {}, {}, ({}, {})
    seen = 0

    def confirmed(i, k, inp, x):
        # the disagreement stays when the inputs move by a few ulp
        for e in (2e-14, -3e-14):
            near = dict(inp, mu=inp["mu"] * (1 + e), r1=tuple(q * (1 - e) for q in inp["r1"]))
            y = [y for y in E.probe((i, k), k, near) if y[0] == x[0] and y[1] is x[1]]
            if not y or abs((y[0][2] - y[0][3]) - (x[2] - x[3])) > 0.02 * abs(x[2] - x[3]):
                return False
        return True
    extra = [(i, inp, short, tol, (2,)) for i, inp, short, tol in kep.directed(E, M, prog)]
    sharp = any(c[0] not in ("node", "near") for c in E.cands)
    plain = [(i,) + kep.geometry(i, M, prog) + (1e-7, (0, 2, 5)) for i in range(n)]
    for i, inp, short, tol, ks in plain + extra:
        for k in ks:
            R = E.probe((i, k), k, inp)
            for x in R:
                if x[0] == "near" and not M:
                    near[abs(x[2] - x[3]) < 1e-8 * x[2]].setdefault(x[1].uid, {})[i] = x
            R = [x for x in R if x[0] != "near"]
            R = [x for x in R if x[0] != "node"] or R
            if not R:
                continue
            seen += 1
            cls = lambda x: ("ellipse" if x[4] > 0 else "hyperbola", "short way" if short else "long way")
            good = [x for x in R if abs(x[2] - x[3]) < tol / 10 * x[2]]
            if good:
                ok.setdefault(cls(good[0]), set()).add(i)
            elif not (sharp and R[0][0] == "node") and all(abs(x[2] - x[3]) > tol * x[2] for x in R):
                x = R[0]
                if isinstance(i, tuple) and not confirmed(i, k, inp, x):
                    continue
                bad.setdefault(cls(x), {})[i] = (x[2], x[3], x[1])
    out = []
    wrong = {i for b in bad.values() for i in b}
    for c in sorted(set(ok) | set(bad)):
        b, g = bad.get(c, {}), len(ok.get(c, ()))
        cons = "return %s, %s, %s" % (j, c[0], c[1])
        if b and len(wrong) >= 3:
            t, w, term = next(iter(b.values()))
            out.append(Rec("bad", "C19.kepler", unit, cons, "the stopping equation is satisfied by a flight time of %.6g where Kepler's equation of the returned conic gives %.6g (%d of %d geometries)" % (
                t, w, len(b), len(b) + g), getattr(term, "site", None) or site))
        elif b:
            out.append(Rec("und", "C19.kepler", unit, cons, "%d of %d points disagree" % (len(b), len(b) + g), site))
        elif g >= 3:
            out.append(Rec("ok", "C19.kepler", unit, cons, "equal at %d generic geometries" % g, site))
    for u in sorted(set(near[0]) | set(near[1])):
        b, g = near[0].get(u, {}), near[1].get(u, {})
        x = next(iter((b or g).values()))
        where = getattr(x[1], "site", None) or site
        cons = "return %s, closed form at line %s" % (j, where[1] if where else "?")
        if len(b) >= 3:
            out.append(Rec("bad", "C19.kepler", unit, cons, "the closed form is selected for a flight time of %.6g where Kepler's equation of the returned conic gives %.6g (%d of %d geometries)" % (
                x[2], x[3], len(b), len(b) + len(g)), where))
        elif len(g) >= 3:
            out.append(Rec("ok", "C19.kepler", unit, cons, "equal at %d generic geometries" % len(g), where))
    if not seen:
        out.append(Rec("und", "C19.kepler", unit, "return %s" % j, "no stopping equation could be solved", site))
    return out
