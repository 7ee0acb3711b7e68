"""Closed-form identities between angles, conic anomalies and vectors, decided on rational parametrisations.

Every input is a rational function of free generators (the tangents of half the angles, q with e = (1 - q^2)/(1 + q^2), ...), so that
terms of the value graph become rational functions (sympy fraction field, exact) or linear combinations of angles, an angle being
known by the tangent of its half.  Two angles are equal modulo 2 pi when these tangents are the same rational function.
"""
import math
import random
from fractions import Fraction

from sympy import QQ
from sympy.polys.fields import field

from . import point
from .alg import NotAlgebraic
from .terms import T


class Lin:
    """sum of coef * angle + pi * k + rat; angles are (kind, tangent of the half), kind 'c' or 'h'."""

    __slots__ = ("ang", "pi", "rat")

    def __init__(self, ang, pi, rat):
        self.ang, self.pi, self.rat = {k: c for k, c in ang.items() if c}, pi, rat


class Scene:
    """A family of inputs: generators with ranges, and every input as a function of them."""

    def __init__(self, gens, inputs, positive=()):
        names = list(gens)
        out = field(names, QQ)
        self.K, self.g = out[0], dict(zip(names, out[1:]))
        self.range = gens
        self.pos = {n for n, (lo, hi) in gens.items() if lo >= 0}
        self.inputs = {}
        for n, f in inputs.items():
            self.inputs[n] = f(self)
        self.extra = [f(self).numer for f in positive]
        self.numeric = {}

    def angle(self, n):
        return Lin({("c", self.g[n]): Fraction(1)}, Fraction(0), self.K.zero)

    def sample(self, i):
        """Generator values and the floats of the inputs."""
        r = random.Random("scene%d" % i)
        gv = {}
        for n, (lo, hi) in self.range.items():
            gv[n] = r.uniform(max(lo, -3), min(hi, 3))
            if abs(gv[n]) < 0.05:
                gv[n] += 0.1
        vals = {}
        for n, v in self.inputs.items():
            if isinstance(v, Lin):
                vals[n] = sum(float(c) * 2 * (math.atan if k[0] == "c" else math.atanh)(self.num(k[1], gv)) for k, c in v.ang.items()) \
                    + float(v.pi) * math.pi + self.num(v.rat, gv)
            else:
                vals[n] = self.num(v, gv)
        return vals

    def value(self, v, i):
        """Float of a value at sample i."""
        n = len(self.inputs)
        self.inputs["?"] = v
        r = self.sample(i)["?"]
        del self.inputs["?"]
        return r

    def num(self, f, gv):
        xs = [gv[str(s)] for s in self.K.symbols]

        def ev(p):
            return sum(float(c) * math.prod(x ** k for x, k in zip(xs, m)) for m, c in p.items())
        return ev(f.numer) / ev(f.denom)


class Trig:
    def __init__(self, U, scene, pc=None):
        self.U, self.sc, self.K = U, scene, scene.K
        self.memo = {}
        self.points = [point.Point(U, i, 0, scene.sample(i), pc) for i in range(6)]

    # -- conditions: decided at sample points of the scene, which must agree -------------------------
    def cond(self, c):
        vs = {P.guess(c) for P in self.points}
        if len(vs) != 1 or None in vs:
            raise NotAlgebraic("condition")
        return vs.pop()

    def val(self, t):
        v = self.memo.get(t.uid)
        if v is None:
            v = self._val(t)
            self.memo[t.uid] = v
        return v

    def S(self, t):
        v = self.val(t) if isinstance(t, T) else t
        if isinstance(v, Lin):
            if v.ang or v.pi:
                raise NotAlgebraic("angle used as a number")
            return v.rat
        return v

    def lin(self, v):
        return v if isinstance(v, Lin) else Lin({}, Fraction(0), v)

    # -- signs and roots ------------------------------------------------------------------------------------------
    def positive(self, p):
        """+1, -1 or None for a polynomial on the scene."""
        names = [str(s) for s in self.K.symbols]
        for s in (1, -1):
            if all(c * s > 0 and all(k % 2 == 0 or n in self.sc.pos for n, k in zip(names, m)) for m, c in p.items()):
                return s
        for e in self.sc.extra:
            if p == e:
                return 1
            if p == -e:
                return -1
        return None

    def sqrt(self, f):
        if not f:
            return self.K.zero
        out = self.K.one
        for p, up in ((f.numer, True), (f.denom, False)):
            c, fs = p.factor_list()
            c = Fraction(int(c.numerator), int(c.denominator))
            if c < 0:
                # a negative constant times factors of known sign
                for g, k in fs:
                    if k % 2:
                        raise NotAlgebraic("radicand")
                raise NotAlgebraic("negative radicand")
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a != c.numerator or b * b != c.denominator:
                raise NotAlgebraic("irrational constant")
            r = self.K(QQ(a, b))
            for g, k in fs:
                if k % 2:
                    raise NotAlgebraic("radicand not a square")
                s = self.positive(g)
                if s is None and (k // 2) % 2:
                    raise NotAlgebraic("sign of a factor")
                r = r * (self.K(g) * (s or 1)) ** (k // 2)
            out = out * r if up else out / r
        return out

    # -- angles --------------------------------------------------------------------------------------------------
    def half(self, v, kind="c"):
        """Tangent of half the value (an angle modulo 2 pi); None stands for infinity."""
        v = self.lin(v)
        if v.rat:
            raise NotAlgebraic("number in an angle")
        k = v.pi % 2
        if k not in (0, 1):
            raise NotAlgebraic("fraction of pi")
        h = None if k == 1 else self.K.zero
        for (kd, x), c in v.ang.items():
            if kd != kind or c.denominator != 1 or abs(c) > 4:
                raise NotAlgebraic("fraction of an angle")
            for _ in range(abs(int(c))):
                h = self.tadd(h, x if c > 0 else (None if x is None else -x), kind)
        return h

    def tadd(self, a, b, kind):
        if a is None and b is None:
            return self.K.zero
        if a is None or b is None:
            x = b if a is None else a
            return -1 / x if x else None
        d = 1 - a * b if kind == "c" else 1 + a * b
        return (a + b) / d if d else None

    def wrap(self, h, kind="c"):
        if h is None:
            return Lin({}, Fraction(1), self.K.zero)
        if not h:
            return self.K.zero
        return Lin({(kind, h): Fraction(1)}, Fraction(0), self.K.zero)

    def circ(self, v, what):
        v = self.lin(v)
        if what == "tan" and len(v.ang) == 1 and not v.rat and v.pi == 0:
            (k, x), c = next(iter(v.ang.items()))
            if k == "c" and abs(c) == Fraction(1, 2):
                return x if c > 0 else -x
        h = self.half(v)
        if h is None:
            return {"cos": -self.K.one, "sin": self.K.zero, "tan": self.K.zero}[what]
        return {"cos": (1 - h * h) / (1 + h * h), "sin": 2 * h / (1 + h * h)}[what] if what != "tan" else 2 * h / (1 - h * h)

    def hyp(self, v, what):
        v = self.lin(v)
        if what == "tanh" and len(v.ang) == 1 and not v.rat and v.pi == 0:
            (k, x), c = next(iter(v.ang.items()))
            if k == "h" and abs(c) == Fraction(1, 2):
                return x if c > 0 else -x
        h = self.half(v, "h")
        return {"cosh": (1 + h * h) / (1 - h * h), "sinh": 2 * h / (1 - h * h), "tanh": 2 * h / (1 + h * h)}[what]

    def arctan2(self, y, x):
        if not y:
            s = self.positive(x.numer) if x else None
            d = self.positive(x.denom) if x else None
            if s is None or d is None:
                raise NotAlgebraic("arctan2 on the axis")
            return self.K.zero if s * d > 0 else Lin({}, Fraction(1), self.K.zero)
        d = self.sqrt(x * x + y * y) + x
        return self.wrap(y / d if d else None)

    def _val(self, t):
        U, K, op, A = self.U, self.K, t.op, t.args
        if op == "const":
            if isinstance(t.val, Fraction):
                return K(QQ(t.val.numerator, t.val.denominator))
            raise NotAlgebraic("const")
        if op == "pi":
            return Lin({}, Fraction(1), K.zero)
        if op == "input":
            return self.sc.inputs[t.val]
        if op == "gamma":
            return self.val(A[1] if self.cond(A[0]) else A[2])
        if op in ("view", "float", "copy", "asarray", "item"):
            return self.val(A[0])
        if op == "comp":
            return self.vec(A[0])[int(A[1].val)]
        if op == "dot":
            return sum((self.S(x) * self.S(y) for x, y in zip(self.vec(A[0]), self.vec(A[1]))), K.zero)
        if op == "norm":
            return self.sqrt(sum((self.S(x) ** 2 for x in self.vec(A[0])), K.zero))
        if op in ("add", "sub"):
            xs = [self.val(a) for a in A]
            r = xs[0]
            for x in xs[1:]:
                r = self.plus(r, x, 1 if op == "add" else -1)
            return r
        if op == "neg":
            return self.plus(K.zero, self.val(A[0]), -1)
        if op == "mul":
            if len(A) == 2 and A[0] is A[1] and A[0].op == "sqrt":
                return self.S(A[0].args[0])
            xs = [self.val(a) for a in A]
            r = xs[0]
            for x in xs[1:]:
                r = self.times(r, x)
            return r
        if op == "div":
            d = self.S(A[1])
            if not d:
                raise NotAlgebraic("division by zero")
            return self.times(self.val(A[0]), 1 / d)
        if op == "pow" and A[0].op == "sqrt" and U.isnum(A[1]) and A[1].val == 2:
            return self.S(A[0].args[0])
        if op == "pow":
            b, e = self.S(A[0]), self.S(A[1])
            if not e.numer.is_ground or not e.denom.is_ground:
                raise NotAlgebraic("power")
            e = Fraction(int(e.numer.LC.numerator) if e else 0, 1) / Fraction(int(e.denom.LC)) if e else Fraction(0)
            if e.denominator == 2:
                b, e = self.sqrt(b), e * 2
            if e.denominator != 1:
                raise NotAlgebraic("power")
            return b ** int(e)
        if op == "sqrt":
            return self.sqrt(self.S(A[0]))
        if op in ("cos", "sin", "tan"):
            return self.circ(self.val(A[0]), op)
        if op in ("cosh", "sinh", "tanh"):
            return self.hyp(self.val(A[0]), op)
        if op == "arctan":
            x = self.S(A[0])
            return Lin({("c", x): Fraction(1, 2)}, Fraction(0), K.zero) if x else K.zero
        if op == "arctanh":
            x = self.S(A[0])
            return Lin({("h", x): Fraction(1, 2)}, Fraction(0), K.zero) if x else K.zero
        if op == "arccos":
            x = self.S(A[0])
            if x == -1:
                return Lin({}, Fraction(1), K.zero)
            return self.wrap(self.sqrt((1 - x) / (1 + x)))
        if op == "arctan2":
            return self.arctan2(self.S(A[0]), self.S(A[1]))
        if op == "log":
            x = self.S(A[0])
            return self.wrap((x - 1) / (x + 1), "h")
        if op == "mod":
            m = self.lin(self.val(A[1]))
            if m.ang or m.rat or m.pi != 2:
                raise NotAlgebraic("modulus")
            v = self.lin(self.val(A[0]))
            if v.rat:
                raise NotAlgebraic("number in an angle")
            return Lin(v.ang, v.pi % 2, v.rat)
        if op == "abs":
            x = self.S(A[0])
            s, d = self.positive(x.numer), self.positive(x.denom)
            if s is None or d is None:
                raise NotAlgebraic("sign")
            return x * s * d
        raise NotAlgebraic(op)

    def plus(self, a, b, s):
        if not isinstance(a, Lin) and not isinstance(b, Lin):
            return a + b * s
        a, b = self.lin(a), self.lin(b)
        ang = dict(a.ang)
        for k, c in b.ang.items():
            ang[k] = ang.get(k, Fraction(0)) + s * c
        return Lin(ang, a.pi + s * b.pi, a.rat + b.rat * s)

    def times(self, a, b):
        if not isinstance(a, Lin) and not isinstance(b, Lin):
            return a * b
        if isinstance(b, Lin):
            if isinstance(a, Lin):
                a = self.S(a)
            a, b = b, a
        if not b:
            return self.K.zero
        if not b.numer.is_ground or not b.denom.is_ground:
            raise NotAlgebraic("multiple of an angle")
        c = Fraction(int(b.numer.LC.numerator), int(b.numer.LC.denominator)) / Fraction(int(b.denom.LC.numerator), int(b.denom.LC.denominator))
        if c == Fraction(1, 2) and len(a.ang) == 1 and not a.pi and not a.rat:
            # log(x) / 2 = log(sqrt(x))
            (k, h), m = next(iter(a.ang.items()))
            if k == "h" and m == 1:
                try:
                    e = self.sqrt((1 + h) / (1 - h))
                    return self.wrap((e - 1) / (e + 1), "h")
                except NotAlgebraic:
                    pass
        return Lin({k: m * c for k, m in a.ang.items()}, a.pi * c, a.rat * self.K(QQ(c.numerator, c.denominator)))

    def vec(self, t):
        U, op, A = self.U, t.op, t.args
        if op == "array":
            return [self.val(a) for a in A]
        if op in ("view", "copy", "asarray", "float"):
            return self.vec(A[0])
        if op == "gamma":
            return self.vec(A[1] if self.cond(A[0]) else A[2])
        if op == "cross":
            a, b = ([self.S(x) for x in self.vec(x)] for x in A)
            return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        if op in ("add", "sub"):
            a, b = self.vec(A[0]), self.vec(A[1])
            return [self.plus(x, y, 1 if op == "add" else -1) for x, y in zip(a, b)]
        if op == "neg":
            return [self.plus(self.K.zero, x, -1) for x in self.vec(A[0])]
        if op in ("mul", "div"):
            v = [a for a in A if a.kind in ("vec", "arr")]
            if len(v) != 1 or op == "div" and v[0] is not A[0]:
                raise NotAlgebraic("product of vectors")
            s = self.S(A[1] if v[0] is A[0] else A[0])
            if op == "div":
                s = 1 / s
            return [self.times(x, s) for x in self.vec(v[0])]
        raise NotAlgebraic("vector " + op)

    # -- equality -------------------------------------------------------------------------------------------------
    def same(self, a, b, turn=False):
        """a = b as values (turn: modulo 2 pi)."""
        if not isinstance(a, Lin) and not isinstance(b, Lin):
            return a == b
        a, b = self.lin(a), self.lin(b)
        if turn:
            return self.half(a) == self.half(b)
        d = self.plus(a, b, -1)
        if not isinstance(d, Lin):
            return not d
        if d.ang:
            # combine angles of the same kind and coefficient
            for kind in "ch":
                ks = {k: c for k, c in d.ang.items() if k[0] == kind}
                if not ks:
                    continue
                unit = {abs(c) for c in ks.values()}
                if len(unit) != 1:
                    return False
                m = unit.pop()
                w = Lin({k: c / m for k, c in ks.items()}, Fraction(0), self.K.zero)
                h = self.half(w, kind)
                if h is not None and h != 0 or h is None and kind == "h":
                    return False
                if kind == "c":
                    # a multiple of pi, the same all over the scene
                    d.pi += m * {round(self.sc.value(w, i) / math.pi) for i in range(6)}.pop()
        return not d.pi and not d.rat
