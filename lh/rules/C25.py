"""C25 - reflection of the problem in the reference plane."""
from .. import point
from ..orbit import flag_units
from ..run import *
from ..terms import show
from .C09 import CONSTS, KEEP, collinear_only, depends_sign, flip, flips, mirror, pc_roots, rotated

NEEDS_SYMPY = True
RULES = {
    "C25.covariant": "both velocities change sign in their z component only: combinations of vectors and pseudo-vectors with coefficients of the fitting parity",
    "C25.choices": "every branch, failure and loop condition depends on even quantities (scalar products, z components of cross products, ...)",
    "C25.generic": "(where components are used in closed form) the velocity formulas of the reflected problem are the reflected ones at generic points",
}
EXPLANATION = ("Terms of the value graph are typed even / odd scalar, vector / pseudo-vector under the reflection z -> -z, coinductively over loops; expressions out of reach of "
               "the typing are compared at generic points of the extracted formulas.")
ASSUMPTIONS = ["valid, non-collinear inputs", "exact arithmetic", "a violation is reported only with generic points that show it"]
FLOOR = 60
FLOOR_UNITS = 15
EVENF = {"cos", "cosh", "abs", "square"}
ODDF = {"sin", "tan", "sinh", "tanh", "arcsin", "arctan", "arcsinh", "arctanh", "sign", "cbrt"}


class Par:
    """Parities: ("s", 1) even scalar, ("s", -1) odd, ("v", 1) vector, ("v", -1) pseudo-vector, None unknown."""

    def __init__(self, U, pc):
        self.U, self.pc = U, pc
        self.cls = {}
        self.busy = set()

    def of(self, t):
        if t.uid in self.cls:
            return self.cls[t.uid]
        if t.uid in self.busy:
            return ("s", 1)
        if t.op == "mu":
            self.cls[t.uid] = ("v" if t.kind == "vec" else "s", 1)
            i = self.U.mu_init.get(t.uid)
            if isinstance(i, T) and i.op != "mu":
                self.busy.add(t.uid)
                self.cls[t.uid] = self.of(i) or self.cls[t.uid]
                self.busy.discard(t.uid)
            return self.cls[t.uid]
        self.busy.add(t.uid)
        r = self.rule(t)
        self.busy.discard(t.uid)
        self.cls[t.uid] = r
        return r

    def check_loops(self):
        U = self.U
        done, bad = set(), []
        while True:
            todo = [u for u in self.cls if U.terms[u].op == "mu" and u not in done]
            if not todo:
                return bad
            for u in todo:
                done.add(u)
                want = self.cls[u]
                for n in (U.mu_init.get(u), U.mu_next.get(u)):
                    if isinstance(n, T) and self.of(n) != want:
                        bad.append((U.terms[u], n))
                for c in U.loops[U.mu_loop[u]].conds:
                    if self.of(c) != ("s", 1):
                        bad.append((U.terms[u], c))

    def zero(self, t):
        return self.U.isnum(t) and t.val == 0

    def rule(self, t):
        U, op, A = self.U, t.op, t.args
        E, O = ("s", 1), ("s", -1)
        if op == "input":
            return ("v", 1) if t.val in ("r1", "r2") else E
        if op in CONSTS or not A:
            return E
        if op == "gamma":
            v = self.pc.eval(A[0])
            if v is not None:
                return self.of(A[1] if v else A[2])
            k = self.of(A[1]), self.of(A[2])
            return k[0] if self.of(A[0]) == E and k[0] == k[1] else None
        if op in ("and", "or", "not"):
            return E if all(self.of(a) == E for a in A) else None
        if op in ("veq", "veq0"):
            ks = {self.of(a) for a in A}
            return ("v", 0) if None not in ks and len(ks) == 1 else None
        if op in ("all", "any"):
            c = self.of(A[0])
            return E if c == E or c == ("v", 0) else None
        if op == "eq" and any(self.zero(a) for a in A):
            k = [self.of(a) for a in A if not self.zero(a)]
            return E if not k or k[0] in (E, O) else None
        ks = [self.of(a) for a in A]
        if any(k is None for k in ks):
            return None
        r, s = [k[0] for k in ks], [k[1] for k in ks]
        if 0 in s:
            return None
        if op == "cross" and r == ["v", "v"]:
            return ("v", -s[0] * s[1])
        if op == "dot" and r == ["v", "v"]:
            return ("s", s[0] * s[1])
        if op == "norm" and r == ["v"]:
            return E
        if op == "comp" and r[0] == "v":
            if not U.isnum(A[1]):
                return None
            return ("s", s[0] * (-1 if int(A[1].val) % 3 == 2 else 1))
        if op in KEEP and len(ks) == 1:
            return ks[0]
        if op in ("add", "sub"):
            return ks[0] if ks[0] == ks[1] else next((k for k, a in zip(ks, reversed(A)) if self.zero(a)), None)
        if op == "mul" and r.count("v") <= 1:
            x = 1
            for y in s:
                x *= y
            return ("v" if "v" in r else "s", x)
        if op == "div" and r[1] == "s":
            return (r[0], s[0] * s[1])
        if op == "array" and len(A) == 3 and t.val == "vec" and set(r) == {"s"}:
            for want in (1, -1):
                if all(self.zero(a) or x == want * (-1 if i == 2 else 1) for i, (a, x) in enumerate(zip(A, s))):
                    return ("v", want)
            return None
        if all(k == E for k in ks):
            return E
        if op in EVENF and ks == [O]:
            return E
        if op in ODDF and ks == [O]:
            return O
        if op == "pow" and ks[0] == O and U.isnum(A[1]) and A[1].val == int(A[1].val):
            return O if int(A[1].val) % 2 else E
        return None


def units(root, tier):
    return flag_units(root, tier)


def run_unit(u, root, tier):
    name, M, prog, low = u
    out = []
    I = Interp(root)
    r = SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=False)
    U = r.U
    unit = "%s M=%s prograde=%s low=%s" % (name, M, prog, low)
    f = underlying(r.f)
    here = (f.module.rel, f.node.lineno, f.name)
    if not r.returned:
        return out
    for j, (st, v) in enumerate(r.rets):
        fl = list(flat_values(v))[:2]
        pc = st.pc
        for t in list(U.terms):
            if pc is not None and t.op == "all" and t.args[0].op == "veq0" and t.args[0].args[0].op == "cross":
                pc = pc.assume(t, False)
        if pc is None or len(fl) < 2:
            continue
        C = Par(U, pc)
        bad, good = rotated(U, st.pc, fl, M, 60 if tier == "quick" else 400, turn=mirror, rot=flip)
        for i, lab in ((0, "v1"), (1, "v2")):
            cons = "return %d %s" % (j, lab)
            k = C.of(fl[i])
            broken = C.check_loops()
            if k == ("v", 1) and not broken:
                out.append(Rec("ok", "C25.covariant", unit, cons, "covariant", fl[i].site))
            elif bad[i] >= 4 and 25 * bad[i] > good:
                out.append(Rec("bad", "C25.covariant", unit, cons, "%s of a problem reflected in the reference plane is not the reflected %s" % (lab, lab), fl[i].site or here))
            elif good >= 12 and not bad[i]:
                out.append(Rec("ok", "C25.generic", unit, cons, "%d generic points" % good, fl[i].site))
            else:
                out.append(Rec("und", "C25.covariant", unit, cons, "type %s %s" % (k, [show(n, 3)[:80] for _, n in broken[:2]]), fl[i].site))
        n = 0
        for c in pc_roots(U, st.pc):
            if C.of(c) == ("s", 1):
                n += 1
            elif c.op == "all" or depends_sign(c):
                continue
            else:
                out.append(Rec("und", "C25.choices", unit, "return %d condition" % j, show(c, 4)[:150], c.site))
        out.append(Rec("ok", "C25.choices", unit, "return %d conditions" % j, "%d even conditions" % n, here))
    C = Par(U, r.base)
    seen = set()
    for x in r.raises:
        for c in pc_roots(U, x.pc):
            if c.uid in seen:
                continue
            seen.add(c.uid)
            if C.of(c) != ("s", 1) and not collinear_only(U, x.pc) and c.op in ("lt", "eq", "and", "or"):
                if flips(U, x.pc, c, M, mirror) >= 3:
                    out.append(Rec("bad", "C25.choices", unit, "%s at %s" % (x.exc, x.site[2]), "a failure depends on the side of the reference plane: %s" % show(c, 4)[:120], x.site))
                    break
    out.append(Rec("ok", "C25.choices", unit, "failures", "%d failures" % len(r.raises), here))
    return out
