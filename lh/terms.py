"""Hash-consed gated value graph (the IR every analysis of this project works on).

A Term is one node of a *gated SSA / value dependence graph* built by the
abstract interpreter in interp.py.  No node ever carries a run-time value of
the analysed program; constants are the literals written in the source.
"""
from __future__ import annotations

from fractions import Fraction
import math

INF = math.inf


class Rng:
    """Closed/open interval with rational or infinite end points."""

    __slots__ = ("lo", "los", "hi", "his")

    def __init__(self, lo=-INF, los=False, hi=INF, his=False):
        self.lo, self.los, self.hi, self.his = lo, los, hi, his

    def pos(self):
        return self.lo > 0 or (self.lo == 0 and self.los)

    def nonneg(self):
        return self.lo >= 0

    def neg(self):
        return self.hi < 0 or (self.hi == 0 and self.his)

    def nonpos(self):
        return self.hi <= 0

    def nonzero(self):
        return self.pos() or self.neg()

    def const(self):
        return self.lo if self.lo == self.hi and not self.los and not self.his else None

    def __repr__(self):
        return "%s%s,%s%s" % ("(" if self.los else "[", self.lo, self.hi, ")" if self.his else "]")

    def join(self, o):
        if self.lo < o.lo:
            lo, los = self.lo, self.los
        elif o.lo < self.lo:
            lo, los = o.lo, o.los
        else:
            lo, los = self.lo, self.los and o.los
        if self.hi > o.hi:
            hi, his = self.hi, self.his
        elif o.hi > self.hi:
            hi, his = o.hi, o.his
        else:
            hi, his = self.hi, self.his and o.his
        return Rng(lo, los, hi, his)

    def meet(self, o):
        if self.lo > o.lo:
            lo, los = self.lo, self.los
        elif o.lo > self.lo:
            lo, los = o.lo, o.los
        else:
            lo, los = self.lo, self.los or o.los
        if self.hi < o.hi:
            hi, his = self.hi, self.his
        elif o.hi < self.hi:
            hi, his = o.hi, o.his
        else:
            hi, his = self.hi, self.his or o.his
        return Rng(lo, los, hi, his)

    def empty(self):
        return self.lo > self.hi or (self.lo == self.hi and (self.los or self.his))


TOP = Rng()
NONNEG = Rng(0, False)
POS = Rng(0, True)
PI_LO, PI_HI = Fraction(314159, 100000), Fraction(314160, 100000)


def _mul(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def r_add(a, b):
    return Rng(a.lo + b.lo if -INF not in (a.lo, b.lo) else -INF, a.los or b.los,
               a.hi + b.hi if INF not in (a.hi, b.hi) else INF, a.his or b.his)


def r_neg(a):
    return Rng(-a.hi, a.his, -a.lo, a.los)


def r_mul(a, b):
    c = []
    for x, xs in ((a.lo, a.los), (a.hi, a.his)):
        for y, ys in ((b.lo, b.los), (b.hi, b.his)):
            v = _mul(x, y)
            # a zero end point that is attained makes the product attained at 0
            if v == 0:
                s = not ((x == 0 and not xs) or (y == 0 and not ys))
            else:
                s = xs or ys
            c.append((v, s))
    lo = min(v for v, _ in c)
    hi = max(v for v, _ in c)
    los = all(s for v, s in c if v == lo)
    his = all(s for v, s in c if v == hi)
    return Rng(lo, los, hi, his)


def r_inv(a):
    if a.pos():
        lo = 0 if a.hi == INF else 1 / Fraction(a.hi)
        hi = INF if a.lo == 0 else (1 / Fraction(a.lo) if a.lo != INF else 0)
        return Rng(lo, True if a.hi == INF else a.his, hi, a.los)
    if a.neg():
        return r_neg(r_inv(r_neg(a)))
    return TOP


def r_abs(a):
    if a.nonneg():
        return a
    if a.nonpos():
        return r_neg(a)
    return Rng(0, False, max(-a.lo, a.hi), False)


class T:
    __slots__ = ("op", "args", "val", "kind", "site", "uid", "rng", "nonnull")

    def __repr__(self):
        return show(self)

    def __bool__(self):  # guard against accidental truth tests
        raise TypeError("truth value of a Term")


def show(t, d=5):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "const":
        return str(t.val)
    if t.op == "input":
        return t.val
    if t.op == "mu":
        return "mu{%s#%d}" % (t.val[1], t.uid)
    if t.op in ("iv", "exit", "opaque", "clock"):
        return "%s%s" % (t.op, t.val)
    if d <= 0:
        return "…"
    sym = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "eq": "=="}.get(t.op)
    if sym:
        return "(%s%s%s)" % (show(t.args[0], d - 1), sym, show(t.args[1], d - 1))
    v = "" if t.val is None else "[%s]" % (t.val,)
    return "%s%s(%s)" % (t.op, v, ", ".join(show(a, d - 1) for a in t.args))


COMM = {"add", "mul", "eq", "and", "or", "dot", "max", "min"}


class Universe:
    def __init__(self):
        self.tab = {}
        self.terms = []
        self.mu_init = {}
        self.mu_next = {}
        self.mu_loop = {}
        self.root_pc = {}
        self.loops = {}
        self.exit_conds = {}
        self.site = None
        self.TRUE = self.const(True)
        self.FALSE = self.const(False)
        self.NONE = self.const(None)
        self.PI = self.mk("pi", (), kind="real")

    # -- construction -----------------------------------------------------
    def _intern(self, op, args, val, kind):
        a = args
        if op in COMM and len(args) == 2 and args[1].uid < args[0].uid:
            a = (args[1], args[0])
        key = (op, tuple(x.uid for x in a), val, type(val).__name__)
        t = self.tab.get(key)
        if t is not None:
            return t, False
        t = T()
        t.op, t.args, t.val, t.kind = op, args, val, kind
        t.site = self.site
        t.uid = len(self.terms)
        t.rng = TOP
        t.nonnull = False
        self.terms.append(t)
        self.tab[key] = t
        return t, True

    def const(self, v):
        if isinstance(v, bool):
            kind = "bool"
        elif v is None:
            kind = "none"
        elif isinstance(v, int):
            kind = "int"
            v = Fraction(v)
        elif isinstance(v, float):
            kind = "real"
            if math.isnan(v):
                return self.mk("nan", (), kind="real")
            if math.isinf(v):
                t = self.mk("inf", (), kind="real")
                return t if v > 0 else self.mk("neg", (t,), kind="real")
            v = Fraction(repr(v))
        elif isinstance(v, Fraction):
            kind = "real"
        elif isinstance(v, str):
            kind = "str"
        elif isinstance(v, complex):
            if v.real == 0:
                kind = "complex"
            else:
                kind = "complex"
        else:
            kind = "any"
            v = repr(v)
        key = ("const", kind, v)
        t = self.tab.get(key)
        if t is None:
            t = T()
            t.op, t.args, t.val, t.kind = "const", (), v, kind
            t.site = self.site
            t.uid = len(self.terms)
            t.nonnull = False
            t.rng = Rng(v, False, v, False) if isinstance(v, Fraction) else TOP
            self.terms.append(t)
            self.tab[key] = t
        return t

    def num(self, fr, kind):
        """A folded numeric constant of the given kind."""
        key = ("const", kind, fr)
        t = self.tab.get(key)
        if t is None:
            t = T()
            t.op, t.args, t.val, t.kind = "const", (), fr, kind
            t.site = self.site
            t.uid = len(self.terms)
            t.nonnull = False
            t.rng = Rng(fr, False, fr, False)
            self.terms.append(t)
            self.tab[key] = t
        return t

    def input(self, name, kind, rng=None, nonnull=False):
        t, new = self._intern("input", (), name, kind)
        if new:
            t.rng = rng or TOP
            t.nonnull = nonnull
        return t

    def mk(self, op, args=(), val=None, kind="any"):
        args = tuple(args)
        f = getattr(self, "_s_" + op, None)
        if f is not None:
            r = f(args, val, kind)
            if r is not None:
                return r
        t, new = self._intern(op, args, val, kind)
        if new:
            t.rng = self._range(t)
            t.nonnull = self._nonnull(t)
        return t

    # -- local simplification ----------------------------------------------
    @staticmethod
    def isnum(t):
        return t.op == "const" and isinstance(t.val, Fraction)

    def _arith(self, args, f):
        if all(self.isnum(a) for a in args):
            try:
                v = f(*[a.val for a in args])
            except (ZeroDivisionError, OverflowError, ValueError):
                return None
            k = "int" if all(a.kind == "int" for a in args) and v.denominator == 1 else "real"
            return self.num(v, k)
        return None

    def _s_add(self, a, v, k):
        return self._arith(a, lambda x, y: x + y)

    def _s_sub(self, a, v, k):
        if a[0] is a[1] and len(a) == 2:
            x = a[0]
            if x.op == "comp" and x.args[0].op == "input" or x.op == "input" and x.kind in ("real", "int"):
                return self.const(0)
            if x.op == "input" and x.kind == "vec":
                return self.mk("array", [self.const(0)] * 3, val="vec", kind="vec")
        return self._arith(a, lambda x, y: x - y)

    def _s_mul(self, a, v, k):
        return self._arith(a, lambda x, y: x * y)

    def _s_div(self, a, v, k):
        r = self._arith(a, lambda x, y: x / y)
        if r is not None and r.kind == "int":
            r = self.num(r.val, "real")
        return r

    def _s_neg(self, a, v, k):
        if a[0].op == "neg":
            return a[0].args[0]
        return self._arith(a, lambda x: -x)

    def _s_pow(self, a, v, k):
        if self.isnum(a[0]) and self.isnum(a[1]) and a[1].val.denominator == 1 and abs(a[1].val) <= 64:
            return self._arith(a, lambda x, y: x ** int(y))
        return None

    def _s_not(self, a, v, k):
        x = a[0]
        if x is self.TRUE:
            return self.FALSE
        if x is self.FALSE:
            return self.TRUE
        if x.op == "not":
            return x.args[0]
        return None

    def _flat(self, op, args):
        out = []
        for x in args:
            if x.op == op:
                out.extend(x.args)
            else:
                out.append(x)
        return out

    def _s_and(self, a, v, k):
        xs, seen = [], set()
        for x in self._flat("and", a):
            if x is self.FALSE:
                return self.FALSE
            if x is self.TRUE or x.uid in seen:
                continue
            seen.add(x.uid)
            xs.append(x)
        for x in xs:
            if x.op == "not" and x.args[0].uid in seen:
                return self.FALSE
        if not xs:
            return self.TRUE
        if len(xs) == 1:
            return xs[0]
        t, _ = self._intern("and", tuple(sorted(xs, key=lambda t: t.uid)), None, "bool")
        return t

    def _s_or(self, a, v, k):
        xs, seen = [], set()
        for x in self._flat("or", a):
            if x is self.TRUE:
                return self.TRUE
            if x is self.FALSE or x.uid in seen:
                continue
            seen.add(x.uid)
            xs.append(x)
        for x in xs:
            if x.op == "not" and x.args[0].uid in seen:
                return self.TRUE
        if not xs:
            return self.FALSE
        if len(xs) == 1:
            return xs[0]
        t, _ = self._intern("or", tuple(sorted(xs, key=lambda t: t.uid)), None, "bool")
        return t

    def AND(self, *a):
        return self.mk("and", a, kind="bool")

    def OR(self, *a):
        return self.mk("or", a, kind="bool")

    def NOT(self, a):
        return self.mk("not", (a,), kind="bool")

    def _leaves_const(self, t, n=16):
        st, c = [t], 0
        while st:
            x = st.pop()
            c += 1
            if c > n * 3:
                return False
            if x.op == "gamma":
                st += [x.args[1], x.args[2]]
            elif x.op not in ("const", "inf", "nan"):
                return False
        return True

    def _push(self, t, f):
        if t.op == "gamma":
            return self.ITE(t.args[0], self._push(t.args[1], f), self._push(t.args[2], f))
        return f(t)

    def ITE(self, c, a, b):
        if a is b:
            return a
        return self.OR(self.AND(c, a), self.AND(self.NOT(c), b))

    def _s_lt(self, a, v, k):
        x, y = a
        if x is y:
            return self.FALSE
        if self.isnum(x) and self.isnum(y):
            return self.TRUE if x.val < y.val else self.FALSE
        if x.op == "gamma" and self._leaves_const(x) and y.op in ("const", "inf"):
            return self._push(x, lambda z: self.mk("lt", (z, y), kind="bool"))
        if y.op == "gamma" and self._leaves_const(y) and x.op in ("const", "inf"):
            return self._push(y, lambda z: self.mk("lt", (x, z), kind="bool"))
        if x.kind in ("vec", "mat", "arr") or y.kind in ("vec", "mat", "arr"):
            return None
        if x.op in ("input", "const") and y.op == "inf":
            return self.TRUE
        if y.op in ("input", "const") and x.op == "neg" and x.args[0].op == "inf":
            return self.TRUE
        rx, ry = x.rng, y.rng
        if rx.hi < ry.lo or (rx.hi == ry.lo and (rx.his or ry.los) and abs(rx.hi) != INF):
            return self.TRUE
        if rx.lo >= ry.hi and abs(rx.lo) != INF:
            return self.FALSE
        bx, by = pibound(x), pibound(y)
        if bx and by:
            if bx[1] and by[0] and _pcmp(bx[1], by[0]) < 0:
                return self.TRUE
            if bx[0] and by[1] and _pcmp(bx[0], by[1]) >= 0:
                return self.FALSE
        return None

    def _s_eq(self, a, v, k):
        x, y = a
        if x is y and x.op != "nan":
            if x.kind in ("vec", "mat", "arr"):
                return self.mk("allbool", (self.TRUE,), kind="arr")
            return self.TRUE
        if x.op == "const" and y.op == "const":
            if x.kind in ("int", "real", "bool") and y.kind in ("int", "real", "bool"):
                return self.TRUE if Fraction(x.val) == Fraction(y.val) else self.FALSE
            return self.TRUE if (x.val == y.val and x.kind == y.kind) else self.FALSE
        for p, q in ((x, y), (y, x)):
            if p.op == "gamma" and self._leaves_const(p) and q.op in ("const",):
                return self._push(p, lambda z: self.mk("eq", (z, q), kind="bool"))
        isv = x.kind in ("vec", "mat", "arr") or y.kind in ("vec", "mat", "arr")
        if not isv:
            rx, ry = x.rng, y.rng
            if rx.hi < ry.lo or ry.hi < rx.lo:
                return self.FALSE
            if (rx.hi == ry.lo and (rx.his or ry.los)) or (ry.hi == rx.lo and (ry.his or rx.los)):
                return self.FALSE
        return None

    def _s_is(self, a, v, k):
        x, y = a
        if x is y:
            return self.TRUE
        if x.op == "const" and y.op == "const":
            return self.TRUE if (x.val is y.val and x.kind == y.kind) else self.FALSE
        for p, q in ((x, y), (y, x)):
            if p.op == "gamma" and self._leaves_const(p) and q.op == "const":
                return self._push(p, lambda z: self.mk("is", (z, q), kind="bool"))
        for p, q in ((x, y), (y, x)):
            if q.op == "const" and q.kind in ("bool", "none", "str") and p.kind in (
                "npbool", "real", "int", "complex", "vec", "arr", "mat"
            ):
                return self.FALSE
            if q.op == "const" and q.kind == "none" and p.kind == "bool":
                return self.FALSE
            if q.op == "const" and q.kind == "bool" and p.kind == "bool":
                # a genuine Python bool: identity coincides with equality
                return p if q.val is True else self.NOT(p)
        return None

    def _s_gamma(self, a, v, k):
        c, x, y = a
        if c is self.TRUE:
            return x
        if c is self.FALSE:
            return y
        if x is y:
            return x
        if c.op == "not":
            return self.mk("gamma", (c.args[0], y, x), kind=k)
        if x is self.TRUE and y is self.FALSE:
            return c
        if x is self.FALSE and y is self.TRUE:
            return self.NOT(c)
        if x.kind == "bool" and y.kind == "bool":
            return self.ITE(c, x, y)
        if x.op == "gamma" and x.args[0] is c:
            return self.mk("gamma", (c, x.args[1], y), kind=k)
        if y.op == "gamma" and y.args[0] is c:
            return self.mk("gamma", (c, x, y.args[2]), kind=k)
        return None

    def _s_real(self, a, v, k):
        if a[0].kind in ("real", "int", "bool"):
            return a[0]
        if a[0].op == "complex" and a[0].args[0].kind in ("real", "int"):
            return a[0].args[0]
        return None

    def _s_max(self, a, v, k):
        return a[0] if len(a) == 1 or (len(a) == 2 and a[0] is a[1]) else self._arith(a, max)

    def _s_min(self, a, v, k):
        return a[0] if len(a) == 1 or (len(a) == 2 and a[0] is a[1]) else self._arith(a, min)

    def _s_abs(self, a, v, k):
        return self._arith(a, abs)

    # -- attributes ----------------------------------------------------------
    def _range(self, t):
        op, a = t.op, t.args
        try:
            if op == "pi":
                return Rng(PI_LO, True, PI_HI, True)
            if op == "add":
                return r_add(a[0].rng, a[1].rng)
            if op == "sub":
                return r_add(a[0].rng, r_neg(a[1].rng))
            if op == "neg":
                return r_neg(a[0].rng)
            if op == "mul":
                if a[0] is a[1] and a[0].kind in ("real", "int"):
                    return r_mul(r_abs(a[0].rng), r_abs(a[0].rng))
                return r_mul(a[0].rng, a[1].rng)
            if op == "div":
                if a[1].rng.nonzero():
                    return r_mul(a[0].rng, r_inv(a[1].rng))
                return TOP
            if op == "pow":
                b, e = a
                if self.isnum(e):
                    if e.val.denominator == 1 and int(e.val) % 2 == 0 and b.kind in ("real", "int"):
                        if e.val > 0:
                            ab = r_abs(b.rng)
                            return Rng(ab.lo ** int(e.val) if ab.lo != INF else INF, ab.los,
                                       ab.hi ** int(e.val) if ab.hi != INF else INF, ab.his)
                        return POS
                    if b.rng.pos():
                        return POS
                    if b.rng.nonneg():
                        return NONNEG
                    if e.val.denominator == 2:
                        return NONNEG
                elif b.rng.pos():
                    return POS
                return TOP
            if op == "sqrt":
                return POS if a[0].rng.pos() else (NONNEG if a[0].kind in ("real", "int") else TOP)
            if op == "abs":
                return r_abs(a[0].rng) if a[0].kind in ("real", "int") else NONNEG
            if op == "norm":
                return POS if a[0].nonnull else NONNEG
            if op == "dot" and a[0] is a[1]:
                return POS if a[0].nonnull else NONNEG
            if op in ("sin", "cos") and a[0].kind in ("real", "int"):
                return Rng(-1, False, 1, False)
            if op in ("tanh",):
                return Rng(-1, True, 1, True)
            if op == "exp" and a[0].kind in ("real", "int"):
                return POS
            if op == "cosh":
                return Rng(1, False)
            if op == "arccos":
                return Rng(0, False, PI_HI, True)
            if op == "arccosh":
                return NONNEG
            if op in ("arcsin", "arctan"):
                return Rng(-PI_HI / 2, True, PI_HI / 2, True)
            if op == "arctan2":
                return Rng(-PI_HI, True, PI_HI, True)
            if op == "gamma":
                return a[1].rng.join(a[2].rng)
            if op == "max":
                lo = max(x.rng.lo for x in a)
                return Rng(lo, all(x.rng.los for x in a if x.rng.lo == lo), max(x.rng.hi for x in a), False)
            if op == "min":
                hi = min(x.rng.hi for x in a)
                return Rng(min(x.rng.lo for x in a), False, hi, all(x.rng.his for x in a if x.rng.hi == hi))
            if op == "mod" and a[1].rng.pos():
                return Rng(0, False, a[1].rng.hi, True)
            if op in ("int", "float", "copy", "real", "complex"):
                if a and a[0].kind in ("real", "int"):
                    return a[0].rng
            if op in ("len",):
                return NONNEG
        except (OverflowError, ZeroDivisionError, TypeError):
            return TOP
        return TOP

    def _nonnull(self, t):
        if t.kind not in ("vec",):
            return False
        if t.op in ("copy", "view", "neg"):
            return t.args[0].nonnull
        if t.op == "div":
            return t.args[0].nonnull
        if t.op == "mul":
            for x, y in (t.args, t.args[::-1]):
                if x.kind == "vec" and x.nonnull and y.rng.nonzero():
                    return True
        if t.op == "gamma":
            return t.args[1].nonnull and t.args[2].nonnull
        return False


def _pcmp(p, q):
    """Exact comparison of a + b*pi with c + d*pi (0 when equal or too close to tell apart)."""
    a, b = p[0] - q[0], p[1] - q[1]
    if b == 0:
        return (a > 0) - (a < 0)
    lo, hi = sorted((a + b * PI_LO, a + b * PI_HI))
    return 1 if lo > 0 else (-1 if hi < 0 else 0)


def pibound(t, depth=12):
    """Closed bounds of t as numbers a + b*pi, for angles built from the inverse functions; a bound is
    None where unknown."""
    if depth == 0:
        return None
    op, a = t.op, t.args
    F = Fraction
    if op == "const" and t.kind in ("int", "real") and isinstance(t.val, (int, Fraction)):
        v = (F(t.val), F(0))
        return v, v
    if op == "pi":
        return (F(0), F(1)), (F(0), F(1))
    if op == "arccos":
        return (F(0), F(0)), (F(0), F(1))
    if op == "arctan2":
        return (F(0), F(-1)), (F(0), F(1))
    if op in ("arctan", "arcsin"):
        return (F(0), F(-1, 2)), (F(0), F(1, 2))
    if op == "neg":
        x = pibound(a[0], depth - 1)
        return x and tuple(v and (-v[0], -v[1]) for v in x[::-1])
    if op in ("add", "sub"):
        x, y = pibound(a[0], depth - 1), pibound(a[1], depth - 1)
        if not x or not y:
            return None
        if op == "sub":
            y = tuple(v and (-v[0], -v[1]) for v in y[::-1])
        return tuple(p and q and (p[0] + q[0], p[1] + q[1]) for p, q in zip(x, y))
    if op in ("mul", "div"):
        for k, z in ((a[0], a[1]), (a[1], a[0])) if op == "mul" else ((a[1], a[0]),):
            if k.op == "const" and k.kind in ("int", "real") and isinstance(k.val, (int, Fraction)):
                c = F(k.val)
                if op == "div":
                    if c == 0:
                        return None
                    c = 1 / c
                x = pibound(z, depth - 1)
                if not x:
                    return None
                return tuple(v and (c * v[0], c * v[1]) for v in (x if c >= 0 else x[::-1]))
        return None
    if op == "gamma":
        x, y = pibound(a[1], depth - 1), pibound(a[2], depth - 1)
        if not x or not y:
            return None
        lo = None if not (x[0] and y[0]) else (x[0] if _pcmp(x[0], y[0]) <= 0 else y[0])
        hi = None if not (x[1] and y[1]) else (x[1] if _pcmp(x[1], y[1]) >= 0 else y[1])
        if x[0] and y[0] and x[0] != y[0] and _pcmp(x[0], y[0]) == 0:
            lo = None
        if x[1] and y[1] and x[1] != y[1] and _pcmp(x[1], y[1]) == 0:
            hi = None
        return lo, hi
    return None


def reach(roots, through_mu=True, U=None, skip=None):
    """All terms reachable from roots (through loop back edges when U is given)."""
    seen, st = {}, list(roots)
    while st:
        t = st.pop()
        if t.uid in seen:
            continue
        seen[t.uid] = t
        if skip and skip(t):
            continue
        st.extend(t.args)
        if U is not None and t.op == "mu" and through_mu:
            st.append(U.mu_init[t.uid])
            n = U.mu_next.get(t.uid)
            if n is not None:
                st.append(n)
            st.extend(U.loops[U.mu_loop[t.uid]].conds)
        if U is not None and t.op == "exit":
            st.extend(U.exit_conds.get(t.uid, ()))
        if U is not None and t.op == "iv":
            st.extend(U.loops[t.val].bounds)
    return seen
