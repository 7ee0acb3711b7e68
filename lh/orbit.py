"""C10/C11: the closing formulas of every solver describe one Keplerian orbit through both points.

v1 = a1 r1 + b1 r2 + g1 (r1 x r2), v2 likewise.  With R1 R2 + G, G = r1.r2, positive (no collinear positions):
  C10  g1 = g2 = 0 and b1 + a2 = 0                                  (motion in the plane, r1 x v1 = r2 x v2)
  C11  R1 (R1 R2 + G) b1 (a1 + b1) = mu = R2 (R1 R2 + G) b1 (b1 - b2) given C10   (same Kepler orbit)
"""
import time

from .run import *
from .interp import Interp
from .terms import show
from . import kep, point


def conditions(F, vs, which):
    from .alg import El
    a1, b1, g1 = F.V(vs[0])
    a2, b2, g2 = F.V(vs[1])
    if which == 0:
        return [g1, g2, F.add(b1, a2)]
    S = El(F.R1 * F.R2 + F.G)
    m = El(F.mu)
    return [F.add(F.mul(F.mul(El(F.R1), S), F.mul(b1, F.add(a1, b1))), m, -1),
            F.add(F.mul(F.mul(El(F.R2), S), F.mul(b1, F.add(b1, b2, -1))), m, -1)]


class Prover:
    def __init__(self, U, vs, which, cuts=(60, 600), depth=12, deadline=None):
        self.U, self.vs, self.which, self.cuts, self.depth = U, vs, which, cuts, depth
        self.leaves = []          # (status, reason, path)
        self.proved = 0
        self.deadline = deadline

    def start(self, pc):
        U = self.U
        # collinear positions are C14's subject
        for uid, t in enumerate(list(U.terms)):
            if t.op == "all" and t.args and t.args[0].op == "veq0" and t.args[0].args[0].op == "cross":
                n = pc.assume(t, False)
                if n is None:
                    return
                pc = n
        self.solve(pc, ())

    def attempt(self, pc, facts, cut):
        from .alg import Field
        F = Field(self.U, pc, cut, facts)
        F.scan_angles(self.vs)
        e = conditions(F, self.vs, self.which)
        return F, [F.is_zero(x) for x in e]

    def solve(self, pc, path):
        from .alg import Split, NotAlgebraic, TooBig
        facts = [(c, v) for c, v in path]
        c = None
        for k, cut in enumerate(self.cuts):
            if self.deadline and time.time() > self.deadline:
                self.leaves.append(("und", "time budget", path))
                return
            try:
                F, z = self.attempt(pc, facts, cut)
            except Split as s:
                c = s.cond
                break
            except (NotAlgebraic, TooBig) as x:
                if k + 1 < len(self.cuts) and isinstance(x, NotAlgebraic):
                    continue
                self.leaves.append(("und", "%s %s" % (type(x).__name__, x), path))
                return
            if all(z):
                self.proved += 1
                return
            if F.gammas:
                g = max(F.gammas, key=lambda g: (g[1] if isinstance(g, tuple) else g).uid)
                c = g[0] if isinstance(g, tuple) else g.args[0]
                break
            if k + 1 == len(self.cuts) or not F.cuts:
                self.leaves.append(("open", "not an identity", path))
                return
        if len(path) > self.depth:
            self.leaves.append(("und", "case split depth", path))
            return
        for v in (True, False):
            if v and c.op == "all" and "cross" in show(c, 4):
                continue
            n = pc.assume(c, v)
            if n is not None:
                self.solve(n, path + ((c, v),))


def run_solver(name, root, which, prop, tier, flags, what):
    M, prog, low = flags
    out = []
    I = Interp(root)
    r = SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=False)
    U = r.U
    unit = "%s M=%s prograde=%s low=%s" % (name, M, prog, low)
    t0 = time.time()
    budget = 240 if tier == "quick" else 600
    for j, (st, v) in enumerate(r.rets):
        fl = list(flat_values(v))[:2]
        site = getattr(fl[0], "site", None)
        cons = "return %d" % j
        if len(fl) < 2:
            continue
        bad, good = point.refute(U, st.pc, fl[0], fl[1], M, which, trials=60)
        P = None
        if len(bad) < 3:
            E = kep.Equation(U, st.pc, fl[0], fl[1], M)
            bad = point.refute(U, st.pc, fl[0], fl[1], M, which, points=[(i, inp) for i, inp, short, tol in kep.directed(E, M, prog not in (False, "np0"), 3)])[0]
            if len({b[2] for b in bad}) < 3:
                bad = []
        if len(bad) < 3:
            P = Prover(U, fl, which, cuts=(60, 600) if tier == "quick" else (60, 600, 3000), deadline=t0 + budget)
            try:
                P.start(st.pc)
            except RecursionError:
                P.leaves.append(("und", "recursion", ()))
            for i in range(P.proved):
                out.append(Rec("ok", prop + ".orbit", unit, cons + " case %d" % i, "identity", site))
            if not P.leaves:
                continue
            bad, good = point.refute(U, st.pc, fl[0], fl[1], M, which, trials=400)
        path = ()
        if len(bad) < 3:
            # points that lie on the case that could not be proved
            for leaf in P.leaves[:6]:
                bad, good = point.refute(U, st.pc, fl[0], fl[1], M, which, trials=250, facts=leaf[2])
                path = leaf[2]
                if len(bad) >= 3:
                    break
        if len(bad) >= 3:
            d = max(b[0] for b in bad)
            where = "; ".join("%s is %s" % (show(c, 3)[:90], v_) for c, v_ in path[:4])
            out.append(Rec("bad", prop + ".orbit", unit, cons, "%s%s" % (what, (" when " + where) if where else ""), site))
            continue
        for st_, why, p in P.leaves:
            out.append(Rec("und", prop + ".orbit", unit, cons + " open case", "%s [%s]" % (
                why, "; ".join("%s is %s" % (show(c, 3)[:70], v_) for c, v_ in p[-3:])), site))
    return out


def flag_units(root, tier):
    out = []
    for n in solver_names(Interp(root)):
        for M in (0, "pos"):
            for prog in (True, False):
                for low in ((True, False) if M == "pos" else (True,)):
                    out.append((n, M, prog, low))
    return out


class Sense(Prover):
    """Sign of b1, the component of the angular momentum along r1 x r2, in every case of one orientation."""

    def __init__(self, U, vs, z, want, deadline):
        Prover.__init__(self, U, vs, 2, (60,), 10, deadline)
        self.z, self.want = z, want

    def solve(self, pc, path):
        from .alg import Field, Split, NotAlgebraic, TooBig
        if self.deadline and time.time() > self.deadline or len(self.leaves) >= 3:
            self.leaves.append(("und", "time budget", path))
            return
        try:
            F = Field(self.U, pc, 60, path)
            F.set_z(self.z)
            F.scan_angles(self.vs[:1])
            s = F.sign_of(F.V(self.vs[0])[1])
            if s == self.want:
                self.proved += 1
                return
            if s is not None:
                self.leaves.append(("wrong", "opposite sense", path))
                return
            if not F.gammas:
                self.leaves.append(("open", "sign not determined", path))
                return
            g = max(F.gammas, key=lambda g: (g[1] if isinstance(g, tuple) else g).uid)
            c = g[0] if isinstance(g, tuple) else g.args[0]
        except Split as s:
            c = s.cond
        except (NotAlgebraic, TooBig) as x:
            self.leaves.append(("und", "%s %s" % (type(x).__name__, x), path))
            return
        if len(path) > self.depth:
            self.leaves.append(("und", "case split depth", path))
            return
        for v in (True, False):
            if v and c.op == "all" and "cross" in show(c, 4):
                continue
            n = pc.assume(c, v)
            if n is not None:
                self.solve(n, path + ((c, v),))


ORIENT = {1: "(r1 x r2)_z > 0", -1: "(r1 x r2)_z < 0", 0: "polar plane"}


def sense(name, root, tier, flags, runs=None):
    M, prog, low = flags
    out = []
    I = Interp(root)
    r = SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=False)
    U = r.U
    unit = "%s M=%s prograde=%s low=%s" % (name, M, prog, low)
    flag = prog not in (False, "np0")
    for j, (st, v) in enumerate(r.rets):
        fl = list(flat_values(v))[:2]
        if len(fl) < 2:
            continue
        site = getattr(fl[0], "site", None)
        E = kep.Equation(U, st.pc, fl[0], fl[1], M)
        far, near = point.senses_at(U, st.pc, fl[0], [(i, inp, 1 if short else -1) for i, inp, short, tol in kep.directed(E, M, flag)])
        if len(far) >= 3:
            out.append(Rec("bad", "C12.sense", unit, "return %d, regions" % j, "the transfer runs in the sense opposite to the one asked for in a region of the inputs "
                           "(%s about %.4g and others)" % (far[0][0], far[0][2]), site))
        elif near >= 12:
            out.append(Rec("ok", "C12.generic", unit, "return %d, regions" % j, "sign at %d points of all regions" % near, site))
        for z in (1, -1, 0):
            want = (1 if z >= 0 else -1) * (1 if flag else -1)
            cons = "return %d, %s" % (j, ORIENT[z])
            wrong, right = point.senses(U, st.pc, fl[0], M, z, want, trials=90 if tier == "quick" else 300)
            if len(wrong) < 3 and len(wrong) * 4 > right:
                wrong, right = point.senses(U, st.pc, fl[0], M, z, want, trials=400)
            if len(wrong) >= 3:
                out.append(Rec("bad", "C12.sense", unit, cons, "the transfer runs in the sense opposite to the one asked for", site))
                continue
            P = Sense(U, fl, z, want, time.time() + (15 if tier == "quick" else 120))
            try:
                P.start(st.pc)
            except RecursionError:
                P.leaves.append(("und", "recursion", ()))
            if not P.leaves and P.proved:
                out.append(Rec("ok", "C12.sense", unit, cons, "sign proved in %d cases" % P.proved, site))
            elif right >= 12 and not wrong:
                out.append(Rec("ok", "C12.generic", unit, cons, "sign at %d generic points" % right, site))
            else:
                out.append(Rec("und", "C12.sense", unit, cons, P.leaves[0][1] if P.leaves else "no case", site))
    return out
