"""Constant propagation over the value graph for exactly collinear positions r2 = k r1.

Facts: the cross product of any two combinations of r1 and r2 is the null vector, signs of components agree (k > 0) or differ (k < 0).
Scalars that become constants are folded in double precision, as the program would compute them (cos(pi) is exactly -1, sin(pi) is
1.2e-16).  Everything else is unknown (None), so that a literal found false here is false for every collinear pair.
"""
import math
from fractions import Fraction

from .point import FUN1, arith
from .terms import T

NUL = "null"          # the null vector
COL = "col"           # a vector along r1


class Coll:
    def __init__(self, U, same, pc=None):
        self.U, self.same, self.pc = U, same, pc
        self.memo = {}
        self.busy = set()

    def ev(self, t):
        if t.uid in self.memo:
            return self.memo[t.uid]
        if t.uid in self.busy:
            return None
        self.busy.add(t.uid)
        try:
            v = self._ev(t)
        except (ArithmeticError, ValueError, TypeError, IndexError):
            v = None
        self.busy.discard(t.uid)
        self.memo[t.uid] = v
        return v

    def cond(self, c):
        U = self.U
        if c is U.TRUE:
            return True
        if c is U.FALSE:
            return False
        if c.op == "not":
            v = self.cond(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.cond(x) for x in c.args]
            k = c.op == "or"
            return k if k in vs else None if None in vs else not k
        if c.op in ("lt", "eq"):
            x, y = (self.ev(a) for a in c.args)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return x < y if c.op == "lt" else x == y
            return self.signs(c)
        if c.op in ("all", "any"):
            return self.vector(c)
        return None

    def signs(self, c):
        """Comparisons of a scalar product or of a component of the null vector with zero."""
        a, b = c.args
        x, y = self.sign(a), self.sign(b)
        if x is None or y is None:
            return None
        if x == 0 or y == 0 or x != y:
            return x < y if c.op == "lt" else x == y
        return None

    def sign(self, t):
        v = self.ev(t)
        if isinstance(v, (int, float)):
            return (v > 0) - (v < 0)
        if t.op == "dot" and {a.op for a in t.args} == {"input"} and t.args[0] is not t.args[1]:
            return 1 if self.same else -1
        if t.op == "add" and self.dotsum(t):
            return 1 if self.same else -1
        if t.op == "norm" and self.ev(t.args[0]) == COL and t.args[0].op == "input":
            return 1
        if t.op in ("mul", "div"):
            ss = [self.sign(a) for a in t.args]
            if 0 in ss[:1] or None not in ss:
                return math.prod(ss)
        if t.rng.pos():
            return 1
        return None

    def dotsum(self, t):
        """t is r1 . r2 written out in components."""
        st, got = [t], set()
        while st:
            a = st.pop()
            if a.op == "add":
                st += a.args
                continue
            if a.op != "mul" or len(a.args) != 2 or any(x.op != "comp" or x.args[0].op != "input" for x in a.args):
                return False
            x, y = a.args
            if {x.args[0].val, y.args[0].val} != {"r1", "r2"} or x.args[1] is not y.args[1]:
                return False
            got.add(x.args[1].uid)
        return len(got) == 3

    def vector(self, c):
        a = c.args[0]
        if a.op == "veq0":
            return True if self.ev(a.args[0]) == NUL else None
        if a.op == "veq" and len(a.args) == 2:
            x, y = a.args
            if x.op == "sign" and y.op == "sign" and c.op == "all":
                u, w = x.args[0], y.args[0]
                if u.op == "input" and w.op == "input" and u is not w:
                    # equal for parallel vectors, different in a non-null component for opposite ones
                    return self.same
            if c.op == "all" and {u.op for u in (x, y)} == {"input"} and not self.same:
                return False
        return None

    def _ev(self, t):
        U, op, A = self.U, t.op, t.args
        if op == "const":
            if isinstance(t.val, Fraction):
                return float(t.val) if t.val.denominator != 1 else int(t.val)
            return t.val if isinstance(t.val, (int, float, bool)) else None
        if op == "pi":
            return math.pi
        if op == "inf":
            return math.inf
        if op == "input":
            return COL if t.val in ("r1", "r2") else None
        if op == "mu":
            return None
        if op == "gamma":
            c = self.cond(A[0])
            if c is None and self.pc is not None:
                c = self.pc.eval(A[0])
            if c is not None:
                return self.ev(A[1] if c else A[2])
            x, y = self.ev(A[1]), self.ev(A[2])
            return x if x == y else None
        if op in ("and", "or", "not", "lt", "eq", "all", "any"):
            return self.cond(t)
        xs = [self.ev(a) for a in A]
        if op == "array" and len(A) == 3 and all(isinstance(x, (int, float)) and x == 0 for x in xs):
            return NUL
        if op in ("view", "copy", "asarray", "float", "item") and len(A) == 1:
            return xs[0]
        if op == "cross":
            return NUL if all(x in (COL, NUL) for x in xs) else None
        if op == "norm":
            return 0.0 if xs[0] == NUL else None
        if op == "dot":
            return 0.0 if NUL in xs and all(x is not None for x in xs) else None
        if op == "comp":
            return 0.0 if xs[0] == NUL else None
        if any(x in (COL, NUL) for x in xs if isinstance(x, str)):
            v = [x for x in xs if isinstance(x, str)]
            if op in ("add", "sub", "neg") and len(v) == len(xs):
                return NUL if set(v) == {NUL} else COL
            if op == "mul" and len(v) == 1:
                return v[0]
            if op == "div" and isinstance(xs[0], str) and len(v) == 1:
                d = xs[1]
                return None if d == 0 else v[0]
            return None
        if op == "mul" and any(x == 0 and isinstance(x, (int, float)) for x in xs):
            return 0.0 if all(self.finite(a, x) for a, x in zip(A, xs)) else None
        if op == "div" and isinstance(xs[0], (int, float)) and xs[0] == 0 and (isinstance(xs[1], (int, float)) and xs[1] or A[1].rng.pos()):
            return 0.0
        if op == "pow" and isinstance(xs[0], (int, float)) and xs[0] == 0 and isinstance(xs[1], (int, float)) and xs[1] > 0:
            return 0.0
        if any(x is None or isinstance(x, (str, bool)) for x in xs) or not xs:
            return None
        if op in ("add", "sub", "mul", "div"):
            r = xs[0]
            for x in xs[1:]:
                r = arith(op, r, x)
            return r
        if op == "neg":
            return -xs[0]
        if op == "abs":
            return abs(xs[0])
        if op == "pow":
            r = xs[0] ** xs[1]
            return None if isinstance(r, complex) else r
        if op == "sign":
            return (xs[0] > 0) - (xs[0] < 0)
        if op in FUN1 and len(xs) == 1:
            return FUN1[op](xs[0])
        if op == "arctan2":
            return math.atan2(*xs)
        if op == "mod":
            return xs[0] % xs[1]
        if op in ("max", "min"):
            return (max if op == "max" else min)(xs)
        return None

    def finite(self, t, x):
        """0 * t is zero: t is built from finite inputs without divisions by unknowns."""
        if x is not None:
            return not isinstance(x, str)
        st, seen = [t], set()
        while st:
            a = st.pop()
            if a.uid in seen:
                continue
            seen.add(a.uid)
            if a.op in ("mu", "brentq", "rootvar", "opaque", "nan", "inf", "minimizer", "tan", "log"):
                return False
            if a.op == "div" and not (a.args[1].rng.pos() or isinstance(self.ev(a.args[1]), (int, float)) and self.ev(a.args[1])):
                return False
            st += a.args
        return True

    def contradicted(self, pc):
        """A literal of the path condition that is false for every such pair."""
        for uid, want in pc.lits.items():
            v = self.cond(self.U.terms[uid])
            if v is not None and v != want:
                return self.U.terms[uid]
        for c, want in pc.ors:
            v = self.cond(c)
            if v is not None and v != want:
                return c
        return None

    def null_division(self, roots):
        """Divisions by the null cross product (or by what it makes zero) that the values depend on."""
        U, st, seen = self.U, list(roots), set()
        while st:
            t = st.pop()
            if not isinstance(t, T) or t.uid in seen:
                continue
            seen.add(t.uid)
            if t.op == "gamma":
                c = self.cond(t.args[0])
                if c is None and self.pc is not None:
                    c = self.pc.eval(t.args[0])
                if c is not None:
                    st.append(t.args[1] if c else t.args[2])
                    st.append(t.args[0])
                    continue
            if t.op == "div":
                d = self.ev(t.args[1])
                if isinstance(d, (int, float)) and not isinstance(d, bool) and d == 0:
                    return t
            if t.op == "mu":
                st += [x for x in (U.mu_init.get(t.uid), U.mu_next.get(t.uid)) if isinstance(x, T)]
            st += t.args
        return None
