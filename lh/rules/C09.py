"""C09 - rotation of the problem about the polar axis."""
import math
import random

from .. import point
from ..orbit import flag_units
from ..run import *
from ..terms import show

NEEDS_SYMPY = True
RULES = {
    "C09.covariant": "both velocities are covariant: combinations of r1, r2 and cross products with invariant coefficients",
    "C09.choices": "every branch, failure and loop condition depends on invariants of rotations about z only (scalar products, z components, ...)",
    "C09.generic": "(where components are used in closed form) the velocity formulas of the rotated problem are the rotated ones at generic points",
}
EXPLANATION = ("Terms of the value graph are typed invariant / covariant vector under rotations about z, coinductively over loops; expressions that read x or y components are "
               "accepted when their infinitesimal rotation, computed on the normal form, vanishes identically.")
ASSUMPTIONS = ["valid, non-collinear inputs", "exact arithmetic", "a violation is reported only with generic points that show it"]
FLOOR = 60
FLOOR_UNITS = 15

KEEP = {"view", "copy", "float", "neg", "asarray"}
CONSTS = {"const", "pi", "inf", "nan", "ext", "iv", "clock", "rootvar", "exit", "opaque", "nonempty"}


class Cov:
    def __init__(self, U, pc):
        from ..alg import Field
        self.U, self.pc = U, pc
        self.cls = {}
        self.F = Field(U, pc, 0)
        self.busy = set()
        self.why = {}

    # classes: I invariant, V covariant, X neither/unknown
    def of(self, t):
        r = self.cls.get(t.uid)
        if r is not None:
            return r
        if t.uid in self.busy:
            return "I"
        if t.op == "mu":
            # coinduction: assume, then verify
            self.cls[t.uid] = "V" if t.kind == "vec" else "I"
            return self.cls[t.uid]
        self.busy.add(t.uid)
        r = self.rule(t)
        self.busy.discard(t.uid)
        self.cls[t.uid] = r
        return r

    def check_loops(self, roots):
        """Verify the assumptions made for loop variables; returns the terms that break them."""
        U = self.U
        done, bad = set(), []
        while True:
            todo = [u for u in self.cls if U.terms[u].op == "mu" and u not in done]
            if not todo:
                return bad
            for u in todo:
                done.add(u)
                want = self.cls[u]
                for n in (U.mu_init.get(u), U.mu_next.get(u)):
                    if isinstance(n, T) and self.of(n) != want:
                        bad.append((U.terms[u], n))
                for c in U.loops[U.mu_loop[u]].conds:
                    if self.of(c) != "I":
                        bad.append((U.terms[u], c))

    def rule(self, t):
        U, op, A = self.U, t.op, t.args
        if op == "input":
            return "V" if t.val in ("r1", "r2") else "I"
        if op in CONSTS or not A:
            return "I"
        if op == "gamma":
            v = self.pc.eval(A[0])
            if v is not None:
                return self.of(A[1] if v else A[2])
            k = self.of(A[1]), self.of(A[2])
            if self.of(A[0]) == "I" and k[0] == k[1]:
                return k[0]
            return self.closed(t)
        if op in ("and", "or", "not"):
            if all(self.of(a) == "I" for a in A):
                return "I"
            if op == "and" and all(a.op == "eq" for a in A) and self.norm2(A):
                return "I"
            return "X"
        if op in ("veq", "veq0"):
            return "C" if all(self.of(a) in ("V", "I") for a in A) and len({self.of(a) for a in A}) == 1 else "X"
        if op in ("all", "any"):
            c = self.of(A[0])
            return "I" if c == "I" or c == "C" and (op == "all") == (A[0].op in ("veq", "veq0")) else "X"
        ks = [self.of(a) for a in A]
        if op == "cross" and ks == ["V", "V"]:
            return "V"
        if op == "dot" and ks == ["V", "V"]:
            return "I"
        if op == "norm" and ks == ["V"]:
            return "I"
        if op == "comp" and ks[0] == "V":
            return "I" if U.isnum(A[1]) and int(A[1].val) % 3 == 2 else "X"
        if op in KEEP and len(ks) == 1:
            return ks[0]
        if op in ("add", "sub") and set(ks) == {"V"}:
            return "V"
        if op == "mul" and ks.count("V") == 1 and all(k in "IV" for k in ks):
            return "V"
        if op == "div" and ks == ["V", "I"]:
            return "V"
        if op == "array" and len(A) == 3 and t.val == "vec":
            if all(U.isnum(a) and a.val == 0 for a in A[:2]) and ks[2] == "I":
                return "V"
            return self.closed(t)
        if all(k == "I" for k in ks):
            return "I"
        return self.closed(t)

    def norm2(self, A):
        """x == 0 and y == 0 for the two horizontal components of a covariant vector."""
        xs = []
        for a in A:
            p, q = a.args
            if self.U.isnum(p) and p.val == 0:
                p, q = q, p
            if not (self.U.isnum(q) and q.val == 0):
                return False
            xs.append(p)
        s = None
        for x in xs:
            y = self.U.mk("mul", (x, x), kind="real")
            s = y if s is None else self.U.mk("add", (s, y), kind="real")
        return self.closed(s) == "I"

    # -- closed forms ------------------------------------------------------------------
    def closed(self, t):
        from ..alg import NotAlgebraic, Split, TooBig
        F = self.F
        if F.size(t, 400) > 380:
            return "X"
        try:
            if t.kind in ("vec", "arr"):
                es = F.V(t)
                return "V" if all(self.still(e) for e in es) else "X"
            if t.op in ("lt", "eq") and len(t.args) == 2:
                return "I" if self.still(F.add(F.S(t.args[0]), F.S(t.args[1]), -1)) else "X"
            if t.kind in ("real", "int"):
                return "I" if self.still(F.S(t)) else "X"
        except (NotAlgebraic, Split, TooBig, RecursionError):
            pass
        return "X"

    def still(self, e):
        """The infinitesimal rotation of an element about z vanishes (numerator and every denominator factor are invariant)."""
        ps = [e.num] + list(e.den)
        return self.atoms_invariant(ps) and not any(self.d(p) for p in ps)

    def atoms_invariant(self, ps):
        F = self.F
        work, seen = [i for p in ps for m in p for i, k in enumerate(m) if k], set()
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            if i in F.rule:
                work += [j for m in F.rule[i] for j, k in enumerate(m) if k]
            w = F.info[i]
            if w[0] in ("term", "atom", "fun"):
                ts = [x for x in w[1:] if isinstance(x, T)]
                if not ts or any(self.of(x) != "I" for x in ts):
                    return False
        return True

    def d(self, p):
        """p does not vary under rotations: zero derivation; every radical in it must have an invariant radicand."""
        F = self.F
        x1, y1, z1, x2, y2, z2 = F.xyz
        out = p.diff(x1) * -y1 + p.diff(y1) * x1 + p.diff(x2) * -y2 + p.diff(y2) * x2
        for i, r in F.rule.items():
            if any(m[i] for m in p) and self.d(r):
                return True
        return bool(F.reduce(out))


def units(root, tier):
    return flag_units(root, tier)


def pc_roots(U, pc):
    return [U.terms[u] for u in pc.lits] + [c for c, _ in pc.ors]


def run_unit(u, root, tier):
    name, M, prog, low = u
    out = []
    I = Interp(root)
    r = SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=False)
    U = r.U
    unit = "%s M=%s prograde=%s low=%s" % (name, M, prog, low)
    f = underlying(r.f)
    here = (f.module.rel, f.node.lineno, f.name)
    if not r.returned:
        return out
    for j, (st, v) in enumerate(r.rets):
        fl = list(flat_values(v))[:2]
        pc = st.pc
        for t in list(U.terms):
            if pc is not None and t.op == "all" and t.args[0].op == "veq0" and t.args[0].args[0].op == "cross":
                pc = pc.assume(t, False)
        if pc is None or len(fl) < 2:
            continue
        C = Cov(U, pc)
        bad, good = rotated(U, st.pc, fl, M, 60 if tier == "quick" else 400)
        for i, lab in ((0, "v1"), (1, "v2")):
            cons = "return %d %s" % (j, lab)
            k = C.of(fl[i])
            broken = C.check_loops([fl[i]])
            if k == "V" and not broken:
                out.append(Rec("ok", "C09.covariant", unit, cons, "covariant", fl[i].site))
            elif bad[i] >= 4 and 25 * bad[i] > good:
                out.append(Rec("bad", "C09.covariant", unit, cons, "%s of a problem rotated about z is not the rotated %s" % (lab, lab), fl[i].site or here))
            elif good >= 12 and not bad[i]:
                out.append(Rec("ok", "C09.generic", unit, cons, "%d generic points" % good, fl[i].site))
            else:
                out.append(Rec("und", "C09.covariant", unit, cons, "type %s %s" % (k, [show(n, 3)[:80] for _, n in broken[:2]]), fl[i].site))
        n = 0
        for c in pc_roots(U, st.pc):
            if C.of(c) == "I":
                n += 1
            elif c.op == "all" or depends_sign(c):
                continue
            else:
                out.append(Rec("und", "C09.choices", unit, "return %d condition" % j, show(c, 4)[:150], c.site))
        out.append(Rec("ok", "C09.choices", unit, "return %d conditions" % j, "%d invariant conditions" % n, here))
    # failures
    C = Cov(U, r.base)
    seen = set()
    for x in r.raises:
        for c in pc_roots(U, x.pc):
            if c.uid in seen:
                continue
            seen.add(c.uid)
            if C.of(c) != "I" and not collinear_only(U, x.pc) and c.op in ("lt", "eq", "and", "or"):
                b = flips(U, x.pc, c, M)
                if b >= 3:
                    out.append(Rec("bad", "C09.choices", unit, "%s at %s" % (x.exc, x.site[2]), "a failure depends on the orientation about z: %s" % show(c, 4)[:120], x.site))
                    break
    out.append(Rec("ok", "C09.choices", unit, "failures", "%d failures" % len(r.raises), here))
    return out


def depends_sign(c):
    st, seen = [c], set()
    while st:
        t = st.pop()
        if t.uid in seen:
            continue
        seen.add(t.uid)
        if t.op == "sign":
            return True
        st += t.args
    return False


def collinear_only(U, pc):
    for uid, v in pc.lits.items():
        t = U.terms[uid]
        if v and t.op == "all" and t.args[0].op == "veq0" and t.args[0].args[0].op == "cross":
            return True
    return False


def turn(inp, phi):
    c, s = math.cos(phi), math.sin(phi)
    q = dict(inp)
    for k in ("r1", "r2"):
        x, y, z = inp[k]
        q[k] = (c * x - s * y, s * x + c * y, z)
    return q


def rot(v, phi):
    c, s = math.cos(phi), math.sin(phi)
    return (c * v[0] - s * v[1], s * v[0] + c * v[1], v[2])


def steep(i, M):
    """Generic inputs; every other plane contains nearly the polar axis."""
    if i % 2 == 0:
        return point.inputs(i, M)
    r = random.Random("steep%d" % i)
    inp = point.inputs(i, M, z=0)
    e = r.choice((-1, 1)) * r.uniform(0.01, 0.15)
    c, s = math.cos(e), math.sin(e)
    for k in ("r1", "r2"):
        x, y, z = inp[k]
        inp[k] = (x, c * y - s * z, s * y + c * z) if abs(y) < 1e-9 else (c * x - s * z, y, s * x + c * z)
    return turn(inp, r.uniform(0.3, 6))


def mirror(inp, phi):
    q = dict(inp)
    for k in ("r1", "r2"):
        x, y, z = inp[k]
        q[k] = (x, y, -z)
    return q


def flip(v, phi):
    return (v[0], v[1], -v[2])


def steady(U, pc, vs, inp, i, k, want):
    """The point is well conditioned: tiny rotations give the same velocities."""
    for e in (1e-7, -1e-7, 3e-7):
        Q = point.Point(U, (i, k), k, turn(inp, e), pc)
        for v, w in zip(vs, want):
            q = Q.ev(v)
            if point.nrm(tuple(x - y for x, y in zip(q, w))) > 1e-4 * point.nrm(w):
                return False
    return True


def rotated(U, pc, vs, M, trials, turn=turn, rot=rot):
    """Compare the formulas for rotated inputs at generic points: ([bad v1, bad v2], good)."""
    bad, good = [0, 0], 0
    for i in range(trials):
        phi = random.Random("phi%d" % i).uniform(0.3, 6)
        for k in (0, 1, 2):
            inp = steep(i, M)
            P, Q = point.Point(U, (i, k), k, inp, pc), point.Point(U, (i, k), k, turn(inp, phi), pc)
            try:
                a, b = P.ev(vs[0]), P.ev(vs[1])
                if not all(1e-3 < point.nrm(x) < 1e3 for x in (a, b)) or not point.satisfied(P, pc):
                    continue
                a2, b2 = Q.ev(vs[0]), Q.ev(vs[1])
                if not point.satisfied(Q, pc):
                    continue
                ok = True
                for n, (p, q) in enumerate(((a, a2), (b, b2))):
                    p = rot(p, phi)
                    if point.nrm(tuple(x - y for x, y in zip(p, q))) > 1e-3 * (point.nrm(p) + point.nrm(q)):
                        if not steady(U, pc, vs, inp, i, k, (a, b)) or not steady(U, pc, vs, turn(inp, phi), i, k, (a2, b2)):
                            break
                        bad[n] += 1
                        ok = False
                good += ok
            except (point.Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
        if good >= 80 or max(bad) >= 8:
            break
    return bad, good


def flips(U, pc, c, M, turn=turn):
    """Generic points at which the failure happens and the rotated problem escapes it."""
    n = 0
    for i in range(120):
        phi = random.Random("phi%d" % i).uniform(0.3, 6)
        inp = point.inputs(i, M)
        P, Q = point.Point(U, (i, 0), 0, inp), point.Point(U, (i, 0), 0, turn(inp, phi))
        try:
            if any(P.cond(U.terms[u]) != w for u, w in pc.lits.items()):
                continue
            if any(P.cond(o) != w for o, w in pc.ors):
                continue
            if Q.cond(c) is not None and Q.cond(c) != P.cond(c):
                n += 1
        except (point.Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
    return n
