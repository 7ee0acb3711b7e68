"""Normal forms of scalar and vector terms over a radical extension of a rational function field.

Scalars are fractions num/den: num is a polynomial over Q in free generators (the sides R1, R2, c of the triangle, mu, the
iterates, ...) and radical generators w with a rewrite rule w^2 -> polynomial; den is a multiset of polynomials.  Square roots are
taken after factoring the radicand, so that the radicals of distinct irreducible factors are independent.  A scalar is
identically zero when its numerator rewrites to the zero polynomial.  Vectors are combinations of r1, r2 and r1 x r2.
"""
import os
import sys
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/bin/python"


def ensure_vt():
    """Re-run the current command with the interpreter that has sympy."""
    try:
        import sympy  # noqa: F401
        return
    except ImportError:
        pass
    for p in (VT, "/usr/local/bin/python3-vt"):
        if os.path.exists(p):
            os.execv(p, [p] + sys.argv)


class NotAlgebraic(Exception):
    pass


class Split(Exception):
    """A case distinction is needed before the term can be converted."""

    def __init__(self, cond):
        self.cond = cond


class TooBig(Exception):
    pass


NGEN = 72
LIMIT = 40000


class El:
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num, self.den = num, den or {}


class Field:
    def __init__(self, U, pc, cut=0, facts=()):
        from sympy import QQ, ring
        self.QQ = QQ
        R = ring(["g%d" % i for i in range(NGEN)], QQ)
        self.R, self.gens = R[0], R[1:]
        self.U, self.pc = U, pc
        self.cut, self.cuts = cut, 0
        self.facts, self.known = facts, None
        self.used = 0
        self.names = []
        self.info = []            # how the generator is evaluated: see witness()
        self.rule = {}            # index of a radical -> polynomial its square is rewritten to
        self.keys = {}            # key -> generator
        self.positive = set()     # polynomials known to be positive (normalised)
        self.signs, self.decided = {}, {}
        self.ones = {}            # sign generators whose value has become known
        self.memo, self.vmemo = {}, {}
        self.zcase = None
        self.gammas = []          # choices treated as unknowns, in order of appearance
        self.angle_unit = {}
        self.one, self.zero = self.R.one, self.R.zero
        self.R1, self.R2, self.c = [self.gen(k, ("side", k), True) for k in ("R1", "R2", "c")]
        R1, R2, c = self.R1, self.R2, self.c
        for p in (R1 + R2 + c, R1 + R2 - c, R1 + c - R2, R2 + c - R1):
            self.positive.add(p)
        self.mu = self.gen(("input", "mu"), ("input", "mu"), True)
        self.xyz = [self.gen("r%d%s" % (i, a), ("comp", i, j)) for i in (1, 2) for j, a in enumerate("xyz")]
        self.G = (R1 ** 2 + R2 ** 2 - c ** 2) * QQ(1, 2)
        x1, y1, z1, x2, y2, z2 = self.xyz
        self.iz1, self.iz2 = self.index(z1), self.index(z2)
        self.zz = {(2, 0): R1 ** 2 - x1 ** 2 - y1 ** 2, (1, 1): self.G - x1 * x2 - y1 * y2, (0, 2): R2 ** 2 - x2 ** 2 - y2 ** 2}

    def set_z(self, sign):
        """Assume the sign of the z component of r1 x r2."""
        x1, y1, _, x2, y2, _ = self.xyz
        p = x1 * y2 - y1 * x2
        self.zcase = (p, sign)
        if sign:
            self.positive.add(p if sign > 0 else -p)
            self.signs.clear()

    # -- generators ---------------------------------------------------------------------
    def gen(self, key, info, pos=False, rule=None):
        g = self.keys.get(key)
        if g is None:
            if self.used >= NGEN:
                raise TooBig("generators")
            g = self.gens[self.used]
            self.keys[key] = g
            self.names.append(str(key))
            self.info.append(info)
            if rule is not None:
                self.rule[self.used] = rule
            self.used += 1
            if pos:
                self.positive.add(g)
        return g

    def index(self, g):
        m = next(iter(g))
        return m.index(1)

    # -- polynomials ------------------------------------------------------------------------
    def reduce(self, p):
        rule, a, b = self.rule, self.iz1, self.iz2
        if self.ones and any(m[i] for m in p for i in self.ones):
            q = {}
            for m, v in p.items():
                l = list(m)
                for i, s in self.ones.items():
                    if l[i] & 1:
                        v = v * s
                    l[i] = 0
                q[tuple(l)] = q.get(tuple(l), 0) + v
            p = self.R.zero
            for m, v in q.items():
                if v:
                    p[m] = v
        while True:
            hit = None
            out = None
            for m, co in p.items():
                for i in rule:
                    if m[i] >= 2:
                        hit = i
                        break
                if hit is not None or m[a] + m[b] >= 2:
                    break
            else:
                return p
            out = self.R.zero
            parts = {}
            for m, co in p.items():
                repl = []
                l = list(m)
                for i in rule:
                    if l[i] >= 2:
                        repl.append((i, l[i] // 2))
                        l[i] &= 1
                while l[a] + l[b] >= 2:
                    if l[a] >= 2:
                        l[a] -= 2
                        repl.append(("z", (2, 0)))
                    elif l[b] >= 2:
                        l[b] -= 2
                        repl.append(("z", (0, 2)))
                    else:
                        l[a] -= 1
                        l[b] -= 1
                        repl.append(("z", (1, 1)))
                k = tuple(sorted(repl, key=str))
                d = parts.setdefault(k, {})
                t = tuple(l)
                d[t] = d.get(t, 0) + co
            for k, d in parts.items():
                q = self.R.zero
                for m, co in d.items():
                    if co:
                        q[m] = co
                for i, e in k:
                    q = q * (self.zz[e] if i == "z" else rule[i] ** e)
                    if len(q) > LIMIT:
                        raise TooBig("terms")
                out = out + q
            p = out

    def pmul(self, p, q):
        if len(p) * len(q) > 4000000:
            raise TooBig("product")
        r = self.reduce(p * q)
        if len(r) > LIMIT:
            raise TooBig("terms")
        return r

    def radfree(self, p):
        return not any(m[i] for m in p for i in self.rule)

    def factor(self, p):
        """(content, [(irreducible polynomial, multiplicity)]) of a polynomial free of radicals."""
        from sympy import QQ, ring
        co, p0 = p.primitive() if p else (p.ring.zero, p)
        ex = [min(m[i] for m in p) for i in range(NGEN)] if p else []
        out = [(self.gens[i], e) for i, e in enumerate(ex) if e]
        q = self.R.zero
        for m, v in p.items():
            q[tuple(a - b for a, b in zip(m, ex))] = v
        used = [i for i in range(NGEN) if any(m[i] for m in q)]
        if not used:
            return q[(0,) * NGEN], out
        # try the known positive polynomials first (cheap)
        small = ring(["h%d" % i for i in range(len(used))], QQ)[0]
        s = small.zero
        for m, v in q.items():
            s[tuple(m[i] for i in used)] = v
        if len(s) > 400:
            raise TooBig("factor")
        co, fs = s.factor_list()
        for f, e in fs:
            b = self.R.zero
            for m, v in f.items():
                l = [0] * NGEN
                for i, x in zip(used, m):
                    l[i] = x
                b[tuple(l)] = v
            out.append((b, e))
        return co, out

    # -- fractions ---------------------------------------------------------------------------
    def const(self, q):
        return El(self.R.ground_new(self.QQ(q.numerator, q.denominator)) if q else self.R.zero)

    def poly(self, p):
        return El(p)

    def _expand(self, den):
        r = self.R.one
        for p, e in den.items():
            for _ in range(e):
                r = self.pmul(r, p)
        return r

    def _cancel(self, num, den):
        if not num:
            return El(num)
        d = dict(den)
        for p in list(d):
            if len(p) > 12 or len(num) > 3000:
                continue
            while d.get(p):
                q, r = num.div([p])
                if r:
                    break
                num = q[0]
                d[p] -= 1
                if not d[p]:
                    del d[p]
        return El(num, d)

    def add(self, a, b, s=1):
        if not a.num:
            return El(b.num * s, b.den)
        if not b.num:
            return a
        den = dict(a.den)
        fa, fb = {}, {}
        for p, e in b.den.items():
            k = den.get(p, 0)
            if e > k:
                den[p] = e
                fa[p] = e - k
        for p, e in den.items():
            k = b.den.get(p, 0)
            if e > k:
                fb[p] = e - k
        na = self.pmul(a.num, self._expand(fa)) if fa else a.num
        nb = self.pmul(b.num, self._expand(fb)) if fb else b.num
        return self._cancel(na + nb * s, den)

    def mul(self, a, b):
        if not a.num or not b.num:
            return El(self.R.zero)
        x = self._cancel(a.num, b.den)
        y = self._cancel(b.num, a.den)
        den = dict(x.den)
        for p, e in y.den.items():
            den[p] = den.get(p, 0) + e
        return El(self.pmul(x.num, y.num), den)

    def inv(self, a):
        if not a.num:
            raise NotAlgebraic("division by zero")
        num = self._expand(a.den)
        p = a.num
        den = {}
        # monomial content
        ex = [min(m[i] for m in p) for i in range(self.used)]
        if any(ex):
            q = self.R.zero
            for m, v in p.items():
                q[tuple(x - (ex[i] if i < self.used else 0) for i, x in enumerate(m))] = v
            p = q
            for i, e in enumerate(ex):
                if e:
                    if i in self.rule:      # 1/w = w/w^2
                        num = self.pmul(num, self.gens[i])
                        r = self.inv(El(self.rule[i]))
                        num = self.pmul(num, r.num)
                        for x, y in r.den.items():
                            den[x] = den.get(x, 0) + y
                    else:
                        den[self.gens[i]] = den.get(self.gens[i], 0) + e
        if len(p) == 1 and not any(next(iter(p))):
            num = num * (1 / p[next(iter(p))])
        else:
            rads = {i for m in p for i in self.rule if m[i]}
            if len(rads) == 1 and len(p) <= 20:
                # a + b w  ->  (a - b w) / (a^2 - b^2 w^2)
                i = next(iter(rads))
                conj = self.R.zero
                for m, v in p.items():
                    conj[m] = -v if m[i] else v
                n2 = self.pmul(p, conj)
                if n2:
                    r = self.inv(El(n2))
                    num = self.pmul(self.pmul(num, conj), r.num)
                    for x, y in r.den.items():
                        den[x] = den.get(x, 0) + y
                    return self._cancel(num, den)
            if not rads and len(p) <= 40:
                co, fs = self.factor(p)
                num = num * (1 / co)
                for f, e in fs:
                    den[f] = den.get(f, 0) + e
            else:
                co = p.LC
                num = num * (1 / co)
                p = p * (1 / co)
                den[p] = den.get(p, 0) + 1
        return self._cancel(num, den)

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def neg(self, a):
        return El(-a.num, a.den)

    def power(self, a, n):
        if n < 0:
            return self.power(self.inv(a), -n)
        if n > 24:
            raise TooBig("power")
        r = self.const(Fraction(1))
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def is_zero(self, a):
        return not self.reduce(a.num)

    # -- roots, absolute values ----------------------------------------------------------------
    def sgn(self, p):
        """+1/-1 when the sign of a polynomial is known, else None."""
        if p in self.positive:
            return 1
        if -p in self.positive:
            return -1
        k = self.signs.get(p)
        if k is None:
            k = self._sgn(p)
            if k is None and len(p) <= 60 and any(m[0] or m[1] or m[2] for m in p):
                # the sides of a triangle are sums of pairs of three positive lengths
                R1, R2, c = self.R1, self.R2, self.c
                q = self.R.zero
                for m, v in p.items():
                    q = q + ((R1 + R2) ** m[0] * (R1 + c) ** m[1] * (R2 + c) ** m[2]).mul_monom((0, 0, 0) + m[3:]) * v
                k = self._sgn(q)
            self.signs[p] = k or 0
        return k or None

    def _sgn(self, p):
        co = [v > 0 for v in p.values()]
        if co and (all(co) or not any(co)):
            # monomials in positive generators (or squares); one of them must not vanish
            strict = False
            for m in p:
                nz = True
                for i, e in enumerate(m):
                    if e and self.gens[i] not in self.positive:
                        if e & 1:
                            return None
                        nz = False
                strict = strict or nz
            if strict:
                return 1 if co[0] else -1
        return None

    def learn(self, p):
        """Record that a polynomial is positive wherever the term is defined."""
        self.positive.add(p)
        self.signs.clear()
        for q, v in ((p, 1), (-p, -1)):
            g = self.keys.get(("sign", q))
            if g is not None:
                i = self.index(g)
                self.ones[i] = v

    def decide(self, c):
        """Truth of a comparison between algebraic expressions, from the signs of their factors."""
        if c.op not in ("lt", "le", "eq") or len(c.args) != 2 or any(x.kind not in ("real", "int", "num", None) and x.kind in ("vec", "arr", "bool") for x in c.args):
            return None
        if c.uid in self.decided:
            return self.decided[c.uid]
        self.decided[c.uid] = None
        r = None
        try:
            if self.size(c, 300) <= 260:
                r = self._decide(c)
        except (NotAlgebraic, TooBig, Split):
            r = None
        self.decided[c.uid] = r
        return r

    def size(self, t, lim=100):
        n, st, seen = 0, [t], set()
        while st and n <= lim:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            n += 1
            st += x.args
        return n

    def _decide(self, c):
        e = self.add(self.S(c.args[1]), self.S(c.args[0]), -1)
        if not e.num:
            return c.op in ("le", "eq")
        if self.known is None:
            self.known = []
            for f, v in self.facts:
                if f.op in ("lt", "le", "eq") and len(f.args) == 2 and self.size(f, 300) <= 260:
                    try:
                        d = self.add(self.S(f.args[1]), self.S(f.args[0]), -1)
                    except (NotAlgebraic, TooBig, Split):
                        continue
                    self.known.append((f.op, d, v))
        for op, d, v in self.known:
            if op == c.op and self.is_zero(self.add(e, d, -1)):
                return v
        if self.zcase and self.zcase[1] == 0 and len(e.num) <= 60:
            p = self.zcase[0]
            if any(f == p or f == -p for f, k in self.factor(e.num)[1]):
                return c.op in ("le", "eq")
        s = self.sign_of(e)
        if s is None:
            return None
        return False if c.op == "eq" else s > 0

    def sign_of(self, e):
        """Sign of an element that is known not to vanish, or None."""
        s = 1
        if len(e.num) <= 60:
            co, fs = self.factor(e.num)
            s = 1 if co > 0 else -1
            fs = list(fs)
        else:
            fs = [(e.num, 1)]
        for f, k in fs + list(e.den.items()):
            q = self.sgn(f)
            if q is None:
                return None
            if k & 1:
                s *= q
        return s

    def absp(self, p):
        s = self.sgn(p)
        if s is not None:
            return p * s
        if p.LC < 0:
            p = -p
        g = self.gen(("sign", p), ("sign", p), rule=self.R.one)
        return self.pmul(g, p)

    def absval(self, a):
        if not a.num:
            return a
        num, den = self.R.one, {}
        if self.radfree(a.num) and len(a.num) <= 60:
            co, fs = self.factor(a.num)
            num = num * abs(co)
            for f, e in fs:
                for _ in range(e):
                    num = self.pmul(num, self.absp(f))
        else:
            # split off radicals common to all terms (they are not negative)
            p, pull = a.num, self.R.one
            for i, w in enumerate(self.info[:self.used]):
                if w[0] in ("sqrt",) and all(m[i] for m in p):
                    q = self.R.zero
                    for m, v in p.items():
                        q[m[:i] + (m[i] - 1,) + m[i + 1:]] = v
                    p, pull = q, pull * self.gens[i]
            if self.radfree(p):
                num = self.pmul(self.absval(El(p)).num, pull)
            else:
                num = self.pmul(self.absp(p), pull)
        for p, e in a.den.items():
            s = self.sgn(p)
            if s is None and e & 1:
                num = self.pmul(num, self.gen(("sign", p), ("sign", p), rule=self.R.one))
                den[p] = den.get(p, 0) + e
            else:
                den[p] = e
                if s == -1 and e & 1:
                    num = -num
        return El(num, den)

    def radical(self, p, exact=False):
        """Generator for the square root of a polynomial."""
        return self.gen(("sqrt", p), ("sqrt", p), True, rule=p)

    def isqrt(self, q):
        """Square root of a positive rational as an element."""
        from sympy import factorint
        n = int(q.numerator) * int(q.denominator)
        r = self.R.one
        out = 1
        for p, e in factorint(n).items():
            out *= p ** (e // 2)
            if e & 1:
                r = r * self.gen(("sqrt", p), ("sqrt", self.R.ground_new(self.QQ(p))), True, rule=self.R.ground_new(self.QQ(p)))
        return r * self.QQ(out, int(q.denominator))

    def sqrt(self, a):
        if not a.num:
            return a
        odd, num, den = {}, self.R.one, {}
        sign = 1
        if self.radfree(a.num):
            co, fs = self.factor(a.num)
            nested = None
        else:
            co, fs, nested = self.QQ(1), [], a.num
            # content in free generators
            ex = [min(m[i] for m in nested) for i in range(self.used)]
            if any(ex):
                q = self.R.zero
                for m, v in nested.items():
                    q[tuple(x - (ex[i] if i < self.used else 0) for i, x in enumerate(m))] = v
                nested = q
                for i, e in enumerate(ex):
                    if e:
                        fs.append((self.gens[i], e))
            if len(nested) == 1 and not any(next(iter(nested))):
                co, nested = nested[next(iter(nested))], None
        for f, e in fs:
            odd[f] = odd.get(f, 0) + (e & 1)
            for _ in range(e // 2):
                num = self.pmul(num, self.absp(f))
        for f, e in a.den.items():
            if e & 1:
                odd[f] = odd.get(f, 0) + 1
            k = (e + 1) // 2
            num = self.pmul(num, self.R.one)
            s = self.sgn(f)
            if s is None and k & 1:
                num = self.pmul(num, self.gen(("sign", f), ("sign", f), rule=self.R.one))
            elif s == -1 and k & 1:
                num = -num
            den[f] = den.get(f, 0) + k
        rest = self.R.one
        unknown = [f for f, e in odd.items() if e == 1 and self.sgn(f) is None]
        if nested is None and len(unknown) == 1:
            # the square root is real, so its one factor of unknown sign has the sign of the others
            q = 1 if co > 0 else -1
            for f, e in odd.items():
                if e == 1 and f is not unknown[0]:
                    q *= self.sgn(f)
            self.learn(unknown[0] * q)
        for f, e in odd.items():
            if e == 2:
                num = self.pmul(num, self.absp(f))
                continue
            if not e:
                continue
            s = self.sgn(f)
            if s is None or not self.radfree(f):
                rest = self.pmul(rest, f)
                continue
            i = next((i for i, g in enumerate(self.gens[:self.used]) if g == f), None)
            num = self.pmul(num, self.radical(f * s))
            sign *= s
        co = co * sign
        if nested is not None:
            rest = self.pmul(rest, nested)
        const = len(rest) == 1 and not any(next(iter(rest)))
        if const:
            co = co * rest[next(iter(rest))]
            if co < 0:
                raise NotAlgebraic("square root of a negative number")
            num = self.pmul(num, self.isqrt(Fraction(int(co.numerator), int(co.denominator))))
        else:
            k, rest = rest.primitive()
            co = co * k
            if co < 0:
                rest, co = -rest, -co
            num = self.pmul(num, self.isqrt(Fraction(int(co.numerator), int(co.denominator))))
            num = self.pmul(num, self.root_of(rest))
        return self._cancel(num, den)

    def root_of(self, p):
        if ("sqrt", p) in self.keys:
            return self.keys["sqrt", p]
        # perfect square in the tower?  (small sums u + w only)
        if self.radfree(p):
            # product of radicands already present
            for (q, g) in [(k[1], g) for k, g in list(self.keys.items()) if isinstance(k, tuple) and k[0] == "sqrt"]:
                if isinstance(q, int) or not self.radfree(q) or q == p or len(q) > len(p):
                    continue
                d, r = p.div([q])
                if not r and self.sgn(q) is None and len(d[0]) > 1 and ("sqrt", d[0]) in self.keys:
                    return self.pmul(g, self.keys["sqrt", d[0]])
        return self.gen(("sqrt", p), ("sqrt", p), True, rule=p)

    # -- terms ------------------------------------------------------------------------------------
    def key(self, e):
        return (e.num, tuple(sorted(((str(p), k) for p, k in e.den.items()))))

    def atom(self, t, pos=None):
        pos = t.rng.pos() if pos is None else pos
        return El(self.gen(("t", t.uid), ("term", t), pos))

    def S(self, t):
        """Scalar term -> El."""
        r = self.memo.get(t.uid)
        if r is None:
            try:
                r = self._S(t)
                if self.cut and len(r.num) > self.cut:
                    r = None
            except TooBig:
                if not self.cut:
                    raise
            if r is None:
                # an expression this large stands for a quantity of its own
                r = self.atom(t)
                self.cuts += 1
            self.memo[t.uid] = r
        return r

    def _fun(self, t):
        """Uninterpreted function of scalars, keyed by the normal forms of its arguments."""
        try:
            k = (t.op, str(t.val)) + tuple(self.key(self.S(a)) for a in t.args)
        except (NotAlgebraic, TooBig):
            return self.atom(t)
        return El(self.gen(("f",) + k, ("fun", t), t.rng.pos()))

    def _S(self, t):
        U = self.U
        op, A = t.op, t.args
        if op == "const":
            if isinstance(t.val, Fraction):
                return self.const(t.val)
            if isinstance(t.val, bool):
                return self.const(Fraction(int(t.val)))
            raise NotAlgebraic("constant %r" % (t.val,))
        if op == "input":
            return El(self.gen(("input", t.val), ("input", t.val), t.rng.pos()))
        if op == "pi":
            return El(self.gen("pi", ("pi",), True))
        if op == "add":
            g = self.dot_pattern(t)
            if g is not None:
                return g
        if op in ("add", "sub"):
            r = self.S(A[0])
            for x in A[1:]:
                r = self.add(r, self.S(x), 1 if op == "add" else -1)
            return r
        if op == "neg":
            return self.neg(self.S(A[0]))
        if op == "mul":
            r = self.S(A[0])
            for x in A[1:]:
                r = self.mul(r, self.S(x))
            return r
        if op == "div":
            return self.div(self.S(A[0]), self.S(A[1]))
        if op == "pow":
            e = A[1]
            if U.isnum(e):
                q = Fraction(e.val)
                if q.denominator == 1:
                    return self.power(self.S(A[0]), int(q))
                if q.denominator == 2:
                    return self.power(self.sqrt(self.S(A[0])), int(2 * q))
            return self._fun(t)
        if op == "sqrt":
            return self.sqrt(self.S(A[0]))
        if op == "abs":
            return self.absval(self.S(A[0]))
        if op in ("float", "copy", "int_", "toint") and len(A) == 1:
            return self.S(A[0])
        if op == "real":
            if A[0].kind in ("real", "int"):
                return self.S(A[0])
            if A[0].op == "complex":
                return self.S(A[0].args[0])
            return self._fun2(t)
        if op == "imag":
            if A[0].op == "complex":
                return self.S(A[0].args[1]) if len(A[0].args) > 1 else self.const(Fraction(0))
            return self._fun2(t)
        if op == "gamma":
            v = self.cond(A[0])
            if v is not None:
                return self.S(A[1] if v else A[2])
            if t not in self.gammas:
                self.gammas.append(t)
            return self.atom(t)
        if op in ("max", "min") and len(A) == 2:
            c = U.mk("lt", (A[0], A[1]), kind="bool")
            v = self.cond(c)
            if v is not None:
                return self.S(A[1] if v == (op == "max") else A[0])
            g = (c, t)
            if g not in self.gammas:
                self.gammas.append(g)
            return self.atom(t)
        if op == "copysign":
            c = U.mk("lt", (A[1], U.const(0)), kind="bool")
            v = self.cond(c)
            if v is not None:
                a = self.absval(self.S(A[0]))
                return self.neg(a) if v else a
            g = (c, t)
            if g not in self.gammas:
                self.gammas.append(g)
            return self.atom(t)
        if op in ("sin", "cos", "tan"):
            try:
                c, s = self.trig(A[0], False)
            except NotAlgebraic:
                return self._fun(t)
            return c if op == "cos" else s if op == "sin" else self.div(s, c)
        if op in ("sinh", "cosh", "tanh"):
            try:
                c, s = self.trig(A[0], True)
            except NotAlgebraic:
                return self._fun(t)
            return c if op == "cosh" else s if op == "sinh" else self.div(s, c)
        if op == "norm":
            a, b, g = self.V(A[0])
            return self.sqrt(self.dotv((a, b, g), (a, b, g)))
        if op == "dot":
            return self.dotv(self.V(A[0]), self.V(A[1]))
        if op == "comp":
            return self.comp(A[0], A[1], t)
        if op in ("mu", "iv", "brentq", "minimizer", "rootvar"):
            return self.atom(t)
        if op in ("inf", "nan"):
            raise NotAlgebraic(op)
        return self._fun(t)

    def dot_pattern(self, t):
        """Sum over the components of two vectors of their products -> the scalar product."""
        terms, st = [], [t]
        while st:
            x = st.pop()
            if x.op == "add":
                st += x.args
            else:
                terms.append(x)
            if len(terms) > 3:
                return None
        if len(terms) != 3:
            return None
        pairs = []
        for x in terms:
            f = [x.args[0]] * 2 if x.op == "pow" and self.U.isnum(x.args[1]) and x.args[1].val == 2 else list(x.args) if x.op == "mul" else []
            if len(f) != 2 or any(y.op != "comp" or not self.U.isnum(y.args[1]) for y in f):
                return None
            if f[0].args[1].val != f[1].args[1].val:
                return None
            pairs.append((int(f[0].args[1].val) % 3, frozenset((f[0].args[0].uid, f[1].args[0].uid)), f[0].args[0], f[1].args[0]))
        if {p[0] for p in pairs} != {0, 1, 2} or len({p[1] for p in pairs}) != 1:
            return None
        try:
            return self.dotv(self.V(pairs[0][2]), self.V(pairs[0][3]))
        except NotAlgebraic:
            return None

    def _fun2(self, t):
        return self.atom(t)

    def cond(self, c):
        v = self.pc.eval(c)
        return self.decide(c) if v is None else v

    # -- angles ----------------------------------------------------------------------------------------
    def angle(self, t, k=Fraction(1), out=None):
        """Linear combination of atomic angles (terms) and pi."""
        out = {} if out is None else out
        U = self.U
        op, A = t.op, t.args
        if op in ("add", "sub"):
            self.angle(A[0], k, out)
            for x in A[1:]:
                self.angle(x, k if op == "add" else -k, out)
        elif op == "neg":
            self.angle(A[0], -k, out)
        elif op == "mul" and len(A) == 2 and (U.isnum(A[0]) or U.isnum(A[1])):
            q, x = (A[0], A[1]) if U.isnum(A[0]) else (A[1], A[0])
            self.angle(x, k * q.val, out)
        elif op == "div" and U.isnum(A[1]):
            self.angle(A[0], k / A[1].val, out)
        elif op == "gamma":
            v = self.cond(A[0])
            if v is not None:
                self.angle(A[1] if v else A[2], k, out)
            else:
                # an angle that depends on a choice: the choice is opened at once
                raise Split(A[0])
        elif op in ("mu", "mod") and self.principal(t) is not None:
            self.angle(self.principal(t), k, out)
        elif op == "mod" and A[1].op in ("mul",) and A[1].rng.const() is None and any(x.op == "pi" for x in A[1].args) and any(
                U.isnum(x) and x.val == 2 for x in A[1].args) and k.denominator == 1:
            self.angle(A[0], k, out)
        elif op == "pi":
            out["pi"] = out.get("pi", 0) + k
        elif U.isnum(t):
            if t.val != 0:
                out[t] = out.get(t, 0) + k
        elif op == "abs" and False:
            pass
        else:
            out[t] = out.get(t, 0) + k
        return {a: q for a, q in out.items() if q}

    def factors(self, t):
        out, st = [], [t]
        while st:
            x = st.pop()
            if x.op == "mul":
                st += x.args
            elif x.op in ("float", "copy"):
                st.append(x.args[0])
            else:
                out.append(x)
        return out

    def turns(self, t):
        """Is t a whole number of turns (2 pi times integers)?"""
        fs = self.factors(t)
        q = Fraction(1)
        pis = 0
        for f in fs:
            if self.U.isnum(f):
                q *= f.val
            elif f.op == "pi":
                pis += 1
            elif f.kind != "int":
                return False
        return pis == 1 and q.denominator == 1 and q % 2 == 0

    def two_pi(self, t):
        return self.turns(t) and all(self.U.isnum(f) or f.op == "pi" for f in self.factors(t)) and abs(
            [f.val for f in self.factors(t) if self.U.isnum(f)][0]) == 2 and len(self.factors(t)) == 2

    def principal(self, t):
        """The angle in (0, 2 pi] that t reduces, when t is that angle plus whole turns brought back to the first turn."""
        U = self.U
        if t.op == "mod":
            if not self.two_pi(t.args[1]):
                return None
            init = t.args[0]
        else:
            nxt, init = U.mu_next.get(t.uid), U.mu_init.get(t.uid)
            if nxt is None or init is None:
                return None
            if not (nxt.op == "sub" and nxt.args[0] is t and self.two_pi(nxt.args[1])):
                return None
            conds = [c for c in U.loops[U.mu_loop[t.uid]].conds]
            if not any(c.op in ("lt", "le") and c.args[1] is t and self.two_pi(c.args[0]) for c in conds):
                return None
        rest, st = [], [init]
        while st:
            x = st.pop()
            if x.op == "add":
                st += x.args
            elif not self.turns(x):
                rest.append(x)
        if len(rest) != 1:
            return None
        lo, hi = rest[0].rng.lo, rest[0].rng.hi
        if lo is None or hi is None or not (lo >= 0 and hi <= Fraction(62832, 10000)):
            return None
        return rest[0]

    def scan_angles(self, roots):
        """Smallest unit of each atomic angle used in the trigonometric calls below roots."""
        seen, st = set(), list(roots)
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op in ("brentq", "minimizer"):
                continue
            if x.op == "gamma":
                v = self.pc.eval(x.args[0])
                st += [x.args[1] if v else x.args[2]] if v is not None else x.args[1:]
            else:
                st += x.args
            if x.op in ("sin", "cos", "tan", "sinh", "cosh", "tanh"):
                for a, q in self.angle(x.args[0]).items():
                    if a != "pi":
                        d = self.angle_unit.get((a.uid, x.op.endswith("h")), 1)
                        g = Fraction(q).denominator
                        import math
                        self.angle_unit[a.uid, x.op.endswith("h")] = d * g // math.gcd(d, g)

    def trig(self, t, hyp):
        ang = self.angle(t)
        c, s = self.const(Fraction(1)), self.const(Fraction(0))
        sg = 1 if hyp else -1
        for a, q in ang.items():
            if a == "pi":
                if hyp:
                    raise NotAlgebraic("pi in a hyperbolic angle")
                x, y = self.pi_angle(q)
            else:
                d = self.angle_unit.get((a.uid, hyp), 1)
                if d % Fraction(q).denominator:
                    d = d * Fraction(q).denominator
                n = q * d
                bc, bs = self.base(a, d, hyp)
                x, y = self.const(Fraction(1)), self.const(Fraction(0))
                if abs(n) > 8:
                    raise NotAlgebraic("multiple angle")
                for _ in range(abs(int(n))):
                    x, y = self.add(self.mul(x, bc), self.mul(y, bs), sg), self.add(self.mul(x, bs), self.mul(y, bc))
                if n < 0:
                    y = self.neg(y)
            c, s = self.add(self.mul(c, x), self.mul(s, y), sg), self.add(self.mul(c, y), self.mul(s, x))
        return c, s

    def pi_angle(self, q):
        q = q % 2
        if (q * 2).denominator == 1:
            k = int(q * 2)
            return [(self.const(Fraction(a)), self.const(Fraction(b))) for a, b in ((1, 0), (0, 1), (-1, 0), (0, -1))][k]
        raise NotAlgebraic("multiple of pi")

    def base(self, a, d, hyp):
        """(cos, sin) of the atomic angle a divided by d."""
        k = ("angle", a.uid, d, hyp)
        if k in self.memo:
            return self.memo[k]
        r = self._base(a, d, hyp)
        self.memo[k] = r
        return r

    def _base(self, a, d, hyp):
        one = self.const(Fraction(1))
        half = self.const(Fraction(1, 2))
        closed = {False: ("arccos", "arcsin", "arctan", "arctan2"), True: ("arccosh", "arcsinh", "arctanh")}[hyp]
        if a.op in closed:
            if d == 1:
                if a.op == "arctan2":
                    y, x = self.S(a.args[0]), self.S(a.args[1])
                    n = self.sqrt(self.add(self.mul(x, x), self.mul(y, y)))
                    return self.div(x, n), self.div(y, n)
                x = self.S(a.args[0])
                if a.op == "arccos":
                    return x, self.sqrt(self.add(one, self.mul(x, x), -1))
                if a.op == "arcsin":
                    return self.sqrt(self.add(one, self.mul(x, x), -1)), x
                if a.op == "arctan":
                    n = self.sqrt(self.add(one, self.mul(x, x)))
                    return self.div(one, n), self.div(x, n)
                if a.op == "arccosh":
                    return x, self.sqrt(self.add(self.mul(x, x), one, -1))
                if a.op == "arcsinh":
                    return self.sqrt(self.add(one, self.mul(x, x))), x
                if a.op == "arctanh":
                    n = self.sqrt(self.add(one, self.mul(x, x), -1))
                    return self.div(one, n), self.div(x, n)
            elif d % 2 == 0:
                c, s = self.base(a, d // 2, hyp)
                if a.op in ("arccos", "arccosh") or d > 2 or a.op in ("arcsin", "arctan"):
                    ch = self.sqrt(self.mul(half, self.add(one, c)))
                    if a.op in ("arccos",) :
                        sh = self.sqrt(self.mul(half, self.add(one, c, -1)))
                    elif a.op == "arccosh":
                        sh = self.sqrt(self.mul(half, self.add(c, one, -1)))
                    else:
                        sh = self.div(self.mul(half, s), ch)
                    return ch, sh
        # free angle
        name = "h" if hyp else "t"
        s = El(self.gen((name, "sin", a.uid, d), ("trigs", a, d, hyp)))
        p = self.R.one + s.num ** 2 if hyp else self.R.one - s.num ** 2
        c = El(self.gen((name, "cos", a.uid, d), ("trigc", a, d, hyp), hyp, rule=p))
        return c, s

    # -- vectors -----------------------------------------------------------------------------------------
    def dotv(self, a, b):
        G, R1, R2 = El(self.G), El(self.R1 ** 2), El(self.R2 ** 2)
        r = self.mul(self.mul(a[0], b[0]), R1)
        r = self.add(r, self.mul(self.mul(a[1], b[1]), R2))
        r = self.add(r, self.mul(self.add(self.mul(a[0], b[1]), self.mul(a[1], b[0])), G))
        if a[2].num and b[2].num:
            N2 = El(self.R1 ** 2 * self.R2 ** 2 - self.G ** 2)
            r = self.add(r, self.mul(self.mul(a[2], b[2]), N2))
        return r

    def crossv(self, a, b):
        G, R1, R2 = El(self.G), El(self.R1 ** 2), El(self.R2 ** 2)
        n = self.add(self.mul(a[0], b[1]), self.mul(a[1], b[0]), -1)
        # r1 x N = r1 G - r2 R1^2 ; r2 x N = r1 R2^2 - r2 G  with N = r1 x r2
        u = self.add(self.mul(a[0], b[2]), self.mul(a[2], b[0]), -1)   # coefficient of r1 x N
        w = self.add(self.mul(a[1], b[2]), self.mul(a[2], b[1]), -1)   # coefficient of r2 x N
        x = self.add(self.mul(u, G), self.mul(w, R2))
        y = self.neg(self.add(self.mul(u, R1), self.mul(w, G)))
        return x, y, n

    def V(self, t):
        r = self.vmemo.get(t.uid)
        if r is None:
            r = self.vmemo[t.uid] = self._V(t)
        return r

    def scale(self, k, v):
        return tuple(self.mul(k, x) if x.num else x for x in v)

    def _V(self, t):
        op, A = t.op, t.args
        z, o = self.const(Fraction(0)), self.const(Fraction(1))
        if op == "input":
            if t.val == "r1":
                return o, z, z
            if t.val == "r2":
                return z, o, z
        if op in ("add", "sub") and all(self.isvec(x) for x in A):
            r = self.V(A[0])
            for x in A[1:]:
                r = tuple(self.add(p, q, 1 if op == "add" else -1) for p, q in zip(r, self.V(x)))
            return r
        if op == "neg":
            return tuple(self.neg(x) for x in self.V(A[0]))
        if op == "mul":
            vs = [x for x in A if self.isvec(x)]
            if len(vs) == 1:
                k = o
                for x in A:
                    if x is not vs[0]:
                        k = self.mul(k, self.S(x))
                return self.scale(k, self.V(vs[0]))
        if op == "div" and self.isvec(A[0]) and not self.isvec(A[1]):
            return self.scale(self.inv(self.S(A[1])), self.V(A[0]))
        if op in ("view", "copy", "float", "asarray") and A:
            return self.V(A[0])
        if op == "cross":
            return self.crossv(self.V(A[0]), self.V(A[1]))
        if op == "gamma":
            v = self.cond(A[0])
            if v is None:
                raise Split(A[0])
            return self.V(A[1] if v else A[2])
        if op == "array" and len(A) == 3:
            r = self.by_components(A)
            if r is not None:
                return r
        raise NotAlgebraic("vector operation %s" % op)

    def isvec(self, t):
        return t.kind in ("vec", "arr")

    def by_components(self, A):
        """An array of three scalars that are the components of a combination of r1, r2, r1 x r2."""
        es = [self.S(a) for a in A]
        x1, y1, z1, x2, y2, z2 = [self.index(g) for g in self.xyz]
        out = []
        # linear in the components with one common coefficient per vector
        co = {}
        for j, e in enumerate(es):
            for k, i in ((0, (x1, y1, z1)[j]), (1, (x2, y2, z2)[j])):
                p = self.R.zero
                for m, v in e.num.items():
                    if m[i] == 1 and not any(m[q] for q in (x1, y1, z1, x2, y2, z2) if q != i):
                        p[m[:i] + (0,) + m[i + 1:]] = v
                co[j, k] = El(p, e.den)
        for j in range(1, 3):
            for k in (0, 1):
                if not self.is_zero(self.add(co[0, k], co[j, k], -1)):
                    return None
        ds = []
        for j, e in enumerate(es):
            d = e
            for k in (0, 1):
                d = self.add(d, self.mul(co[0, k], El(self.xyz[3 * k + j])), -1)
            ds.append(d)
        if all(self.is_zero(d) for d in ds):
            return co[0, 0], co[0, 1], self.const(Fraction(0))
        # a multiple of r1 x r2: the coefficient of y1 z2 in the first component
        p = self.R.zero
        for m, v in ds[0].num.items():
            if m[y1] == 1 and m[z2] == 1 and not any(m[q] for q in (x1, z1, x2, y2)):
                l = list(m)
                l[y1] = l[z2] = 0
                p[tuple(l)] = v
        g = El(p, ds[0].den)
        for j, n in enumerate(self.normal()):
            if not self.is_zero(self.add(ds[j], self.mul(g, El(self.reduce(n))), -1)):
                return None
        return co[0, 0], co[0, 1], g

    def normal(self):
        x1, y1, z1, x2, y2, z2 = self.xyz
        return y1 * z2 - z1 * y2, z1 * x2 - x1 * z2, x1 * y2 - y1 * x2

    def comp(self, v, i, t):
        if self.U.isnum(i) and int(i.val) in (0, 1, 2, -1, -2, -3):
            j = int(i.val) % 3
            if v.op == "gamma":
                c = self.cond(v.args[0])
                if c is None:
                    raise Split(v.args[0])
                return self.comp(v.args[1] if c else v.args[2], i, t)
            if v.op == "array" and len(v.args) == 3:
                return self.S(v.args[j])
            if v.kind in ("vec", "arr"):
                try:
                    a, b, g = self.V(v)
                except NotAlgebraic:
                    return self.atom(t)
                x1, y1, z1, x2, y2, z2 = self.xyz
                r = self.add(self.mul(a, El(self.xyz[j])), self.mul(b, El(self.xyz[3 + j])))
                if g.num:
                    n = (y1 * z2 - z1 * y2, z1 * x2 - x1 * z2, x1 * y2 - y1 * x2)[j]
                    r = self.add(r, self.mul(g, El(self.reduce(n))))
                return r
        return self.atom(t)
