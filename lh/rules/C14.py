"""C14 - collinear positions."""
import math
import random

from .. import point
from ..coll import Coll
from ..orbit import flag_units
from ..run import *
from ..terms import show

RULES = {
    "C14.opposite": "no return is reachable when r2 = -k r1: a literal of every return's path condition is false for all such pairs",
    "C14.same": "every return reachable when r2 = k r1 gives velocities computed without a division by the null cross product",
}
EXPLANATION = ("The path condition of every return of every solver is evaluated by constant propagation under the facts that hold for collinear positions (the cross product "
               "is null, the components have equal or opposite signs); constants are folded in double precision.")
ASSUMPTIONS = ["the computed cross product of the positions is exactly null", "a return is reported only if generic collinear points satisfy its path condition"]
FLOOR = 60
FLOOR_UNITS = 15


def units(root, tier):
    return flag_units(root, tier)


class Nan(point.Point):
    """Values at collinear points, with the not-a-number semantics of the arithmetic."""

    def hard(self, c):
        if c.op in ("lt", "eq") and c.args and len(c.args) == 2:
            try:
                xs = [self.ev(a) for a in c.args]
            except point.Unk:
                return None if not self.nan(c.args[0]) and not self.nan(c.args[1]) else False
            if any(isinstance(x, float) and x != x for x in xs):
                return False
            if point.soft(c) and loops(c):
                return None
            return xs[0] < xs[1] if c.op == "lt" else xs[0] == xs[1]
        return point.Point.hard(self, c)

    def guess(self, c):
        if c.op in ("lt", "eq"):
            v = self.hard(c)
            if v is not None:
                return v
        return point.Point.guess(self, c)

    def nan(self, t):
        """The term fails to evaluate because something is divided by zero on the way."""
        st, seen = [t], set()
        while st:
            a = st.pop()
            if a.uid in seen or len(seen) > 3000:
                continue
            seen.add(a.uid)
            if a.op == "div":
                try:
                    if self.ev(a.args[1]) == 0:
                        return True
                except point.Unk:
                    pass
            if a.op == "gamma":
                v = self.cond(a.args[0])
                if v is not None:
                    st.append(a.args[1] if v else a.args[2])
                    continue
            st += a.args
        return False


def loops(t):
    st, seen = [t], set()
    while st:
        a = st.pop()
        if a.uid in seen:
            continue
        seen.add(a.uid)
        if a.op in ("mu", "iv", "brentq", "minimizer", "opaque", "exit"):
            return True
        st += a.args
    return False


def reached(U, pc, M, same, trials):
    n = 0
    for i in range(trials):
        r = random.Random("col%d" % i)
        inp = point.inputs(i, M)
        x = tuple(float(r.randint(-6, 6)) / 2 for _ in range(3))
        if i % 3 == 0:
            x = tuple(0.0 if j == i // 3 % 3 else a for j, a in enumerate(x))
        if not any(x):
            continue
        k = r.choice((0.5, 2.0, 1.5, 3.0, 0.25)) if same else -r.choice((0.5, 1.0, 2.0, 1.5, 3.0))
        inp.update(r1=x, r2=tuple(k * a for a in x))
        for p in (0, 1, 2):
            P = Nan(U, (i, p), p, inp, pc)
            try:
                if holds(P, pc):
                    n += 1
                    break
            except (point.Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
        if n >= 5:
            break
    return n


def holds(P, pc):
    for c, want in [(P.U.terms[u], w) for u, w in pc.lits.items()] + list(pc.ors):
        v = P.hard(c)
        if v is not None and v != want:
            return False
    return True


def run_unit(u, root, tier):
    name, M, prog, low = u
    out = []
    I = Interp(root)
    r = SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=False)
    U = r.U
    unit = "%s M=%s prograde=%s low=%s" % (name, M, prog, low)
    f = underlying(r.f)
    here = (f.module.rel, f.node.lineno, f.name)
    if not r.returned:
        out.append(Rec("ok", "C14.opposite", unit, "no return", "refuses every input", here))
    for j, (st, v) in enumerate(r.rets):
        fl = list(flat_values(v))[:2]
        site = getattr(fl[0], "site", None) or here if fl else here
        C = Coll(U, False, st.pc)
        c = C.contradicted(st.pc)
        cons = "return %d" % j
        if c is not None:
            out.append(Rec("ok", "C14.opposite", unit, cons, "unreachable: %s is decided otherwise" % show(c, 2)[:80], site))
        elif reached(U, st.pc, M, False, 60) >= 5:
            out.append(Rec("bad", "C14.opposite", unit, cons, "positions on opposite sides of the attractor reach a normal return", site))
        else:
            out.append(Rec("und", "C14.opposite", unit, cons, "path condition not decided", site))
        C = Coll(U, True, st.pc)
        if C.contradicted(st.pc) is not None:
            out.append(Rec("ok", "C14.same", unit, cons, "unreachable", site))
            continue
        d = C.null_division(fl)
        if d is None:
            out.append(Rec("ok", "C14.same", unit, cons, "reachable, no division by the null cross product", site))
        elif reached(U, st.pc, M, True, 60) >= 5:
            out.append(Rec("bad", "C14.same", unit, cons, "aligned positions are answered through a division by zero: %s" % show(d, 3)[:100], d.site or site))
        else:
            out.append(Rec("und", "C14.same", unit, cons, "division by zero %s, path not decided" % show(d, 2)[:80], d.site or site))
    return out
