"""Value-graph formulas at generic points: a one-sided (refuting) zero test.

Used only when the algebraic zero test does not succeed: the formulas *read from the source* are compared at points with random
coordinates, the opaque atoms (roots delivered by library root finders, ...) being random unknowns and loop-carried values being those
after k passes.  A point that satisfies the path condition and separates the two sides refutes the identity; nothing found proves
nothing (the obligation stays undecided).
"""
import cmath
import math
import random
from fractions import Fraction


class Unk(Exception):
    pass


def hyperg(f):
    return f


def _real(f, g=None):
    def h(x):
        if isinstance(x, complex):
            return getattr(cmath, g)(x)
        return f(x)
    return h


FUN1 = {
    "sin": _real(math.sin, "sin"), "cos": _real(math.cos, "cos"), "tan": _real(math.tan, "tan"),
    "arcsin": _real(math.asin, "asin"), "arccos": _real(math.acos, "acos"), "arctan": _real(math.atan, "atan"),
    "sinh": _real(math.sinh, "sinh"), "cosh": _real(math.cosh, "cosh"), "tanh": _real(math.tanh, "tanh"),
    "arcsinh": _real(math.asinh, "asinh"), "arccosh": _real(math.acosh, "acosh"), "arctanh": _real(math.atanh, "atanh"),
    "exp": _real(math.exp, "exp"), "log": _real(math.log, "log"), "sqrt": _real(math.sqrt, "sqrt"), "log10": _real(math.log10, "log10"),
    "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "gammafn": math.gamma, "floor": math.floor, "ceil": math.ceil,
    "log1p": math.log1p, "expm1": math.expm1, "round": round, "rint": round,
    "deg2rad": math.radians, "rad2deg": math.degrees, "radians": math.radians, "degrees": math.degrees,
}
SAME = {"float", "copy", "view", "asarray", "int_", "item"}


class Deps:
    """The loops (and root placeholders) a term depends on, through loop variables included."""

    def __init__(self, U):
        self.U = U
        self.n = len(U.terms)
        direct = {}

        def scan(roots):
            st, seen, out = list(roots), set(), set()
            while st:
                t = st.pop()
                if t.uid in seen:
                    continue
                seen.add(t.uid)
                k = self.own(t)
                if k is not None:
                    out.add(k)
                st += t.args
            return out
        self.loop = {}
        by = {}
        for u, l in U.mu_loop.items():
            by.setdefault(l, []).append(u)
        for l in U.loops:
            ts = []
            for u in by.get(l, ()):
                ts += [x for x in (U.mu_init.get(u), U.mu_next.get(u)) if x is not None]
            ts += list(U.loops[l].conds) + list(U.loops[l].bounds)
            direct[l] = scan(ts) | {l}
        for l in direct:
            out, st = set(), [l]
            while st:
                x = st.pop()
                if x in out:
                    continue
                out.add(x)
                st += direct.get(x, ())
            self.loop[l] = frozenset(out)
        self.memo = {}
        self.none = frozenset()

    def own(self, t):
        if t.op == "mu":
            return self.U.mu_loop.get(t.uid)
        if t.op == "exit":
            return t.val[0]
        if t.op in ("iv", "nonempty"):
            return t.val
        if t.op == "rootvar":
            return ("rv", t.uid)
        return None

    def of(self, t):
        r = self.memo.get(t.uid)
        if r is None:
            k = self.own(t)
            if k is not None:
                r = self.loop.get(k) or frozenset((k,))
            elif t.args:
                r = self.of(t.args[0])
                for a in t.args[1:]:
                    x = self.of(a)
                    if not x <= r:
                        r = r | x
            else:
                r = self.none
            self.memo[t.uid] = r
        return r


def deps(U):
    d = getattr(U, "_deps", None)
    if d is None or d.n != len(U.terms):
        d = U._deps = Deps(U)
    return d


class Point:
    """One assignment: geometry and atoms are drawn lazily from the seed."""

    def __init__(self, U, seed, passes=0, fixed=None, pc=None):
        self.U = U
        self.seed, self.passes, self.pc = seed, passes, pc
        self.atoms = {}
        self.frames = [({}, {}, None)]    # (loop variable values, memo, loop)
        self.deps = deps(U)
        self.fixed = dict(fixed or {})
        self.budget = 60000
        self.domain = False               # a function was evaluated outside its domain
        self.forced = {}                  # outcome imposed on tests
        self.full = False                 # loops run to their own exit (series), up to self.cap passes
        self.cap = 400
        self.trim = 0                     # passes left out of loops that make a fixed number of passes
        self.limited = set()              # loops that make self.passes passes even so

    def fresh(self, t, what=None):
        k = t.uid if what is None else what
        v = self.atoms.get(k)
        if v is None:
            r = random.Random("%s/%s" % (self.seed, k))
            lo, hi = t.rng.lo, t.rng.hi
            lo = float(lo) if abs(lo) != math.inf else None
            hi = float(hi) if abs(hi) != math.inf else None
            if t.kind == "bool":
                v = None
            elif lo is not None and hi is not None:
                v = r.uniform(lo, hi)
            elif lo is not None:
                v = lo + r.uniform(0.2, 3)
            elif hi is not None:
                v = hi - r.uniform(0.2, 3)
            else:
                v = r.uniform(-2, 3)
            if t.kind == "int" and v is not None:
                v = int(round(v))
            if t.kind == "vec":
                v = tuple(r.uniform(-2, 2) for _ in range(3))
            self.atoms[k] = v
        return v

    def level(self, t):
        """The number of frames that matter to t."""
        d = self.deps.of(t)
        n = len(self.frames)
        while n > 1 and self.frames[n - 1][2] not in d:
            n -= 1
        return n

    def ev(self, t):
        """Value of a term; raises Unk."""
        if len(self.frames) > 1:
            n = self.level(t)
            if n < len(self.frames):
                rest = self.frames[n:]
                del self.frames[n:]
                try:
                    return self.ev(t)
                finally:
                    self.frames += rest
        vals, memo, _ = self.frames[-1]
        if t.uid in memo:
            v = memo[t.uid]
            if v is Unk:
                raise Unk(t.op)
            return v
        self.budget -= 1
        if self.budget < 0:
            raise Unk("budget")
        try:
            v = self._ev(t)
        except ValueError:
            v = Unk
            self.domain = True
        except (ZeroDivisionError, OverflowError, TypeError, IndexError):
            v = Unk
        except Unk:
            v = Unk
        if isinstance(v, float) and v != v:
            v = Unk
        memo[t.uid] = v
        if v is Unk:
            raise Unk(t.op)
        return v

    def exitval(self, c):
        """Whether a loop run to its own exit left by this one."""
        n = self.level(c)
        rest = self.frames[n:]
        del self.frames[n:]
        try:
            vals = self.frames[-1][0]
            if ("exit", c.uid) not in vals:
                lid = c.val[0]
                ms = [self.U.terms[u] for u, l in self.U.mu_loop.items() if l == lid]
                if ms and not any(m.uid in self.fixed for m in ms):
                    try:
                        self.ev(ms[0])
                    except Unk:
                        pass
            return vals.get(("exit", c.uid))
        finally:
            self.frames += rest

    def cond(self, c):
        """True / False / None (unknown)."""
        U = self.U
        if c is U.TRUE:
            return True
        if c is U.FALSE:
            return False
        if c.uid in self.forced:
            return self.forced[c.uid]
        if c.op == "exit" and self.full:
            v = self.exitval(c)
            if v is not None:
                return v
        if c.op == "not":
            v = self.cond(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            stop, out = c.op == "or", c.op == "and"
            for x in sorted(c.args, key=lambda x: x.op in ("exit", "and", "or")):
                v = self.cond(x)
                if v is stop:
                    return v
                if v is None:
                    out = None
            return out
        if self.pc is not None:
            v = self.pc.lits.get(c.uid)
            if v is not None and (soft(c) or c.op not in ("lt", "eq", "isfinite", "isnan")):
                return v
        try:
            return self.ev(c)
        except Unk:
            return None

    def hard(self, c):
        """cond() with tests of nearness taken as unknown."""
        if c.op == "not":
            v = self.hard(c.args[0])
            return None if v is None else not v
        if c.op == "and":
            vs = [self.hard(x) for x in c.args]
            return False if False in vs else None if None in vs else True
        if c.op == "or":
            vs = [self.hard(x) for x in c.args]
            return True if True in vs else None if None in vs else False
        if soft(c):
            return None
        return self.cond(c)

    def choose(self, c):
        v = self.guess(c)
        if v is None:
            raise Unk("condition")
        return v

    def guess(self, c):
        v = self.cond(c)
        if v is not None:
            return v
        if c.op == "not":
            v = self.guess(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.guess(x) for x in c.args]
            if c.op == "and":
                return False if False in vs else None if None in vs else True
            return True if True in vs else None if None in vs else False
        if c.op in ("exit", "input", "brentq_conv", "brentq_bracket", "min_success", "nonempty", "opaque"):
            k = ("cond", c.uid)
            v = self.atoms.get(k)
            if v is None:
                v = self.atoms[k] = random.Random("%s/%s" % (self.seed, k)).random() < 0.5
        return v

    def loop(self, t):
        """Values of the variables of the loop of t after self.passes passes."""
        U = self.U
        lid = U.mu_loop[t.uid]
        mus = [U.terms[u] for u, l in U.mu_loop.items() if l == lid]
        outer, memo, _ = self.frames[-1]
        cur = {}
        for m in mus:
            try:
                cur[m.uid] = self.ev(U.mu_init[m.uid])
            except Unk:
                cur[m.uid] = Unk
        exits = [l for u, l in U.exit_conds_lits.items() if U.terms[u].val[0] == lid]
        if self.full and lid not in self.limited:
            return self.series(t, lid, mus, outer, cur)
        k = 0
        while True:
            vals = dict(outer)
            vals.update(cur)
            vals["iv", lid] = k
            self.frames.append((vals, {}, lid))
            try:
                leave, perhaps = False, not exits
                for lits in exits:
                    vs = [None if v is None else v == p for v, p in ((self.hard(c), p) for c, p in lits)]
                    if False in vs:
                        continue
                    if None in vs or not vs:
                        perhaps = True
                    else:
                        leave = True
                if leave or k >= self.passes and perhaps:
                    break
                if k == self.passes:
                    snap = cur
                if k > 14:
                    cur = snap
                    break
                nxt = {}
                for m in mus:
                    n = U.mu_next.get(m.uid)
                    if n is None:
                        nxt[m.uid] = cur[m.uid]
                        continue
                    try:
                        nxt[m.uid] = self.ev(n)
                    except Unk:
                        nxt[m.uid] = Unk
            finally:
                self.frames.pop()
            cur = nxt
            k += 1
        outer.update(cur)
        outer["iv", lid] = k
        return cur[t.uid]

    def series(self, t, lid, mus, outer, cur):
        """The loop run to its own exit (budget of iterations included)."""
        U = self.U
        n = math.inf
        exits = [(u, l) for u, l in U.exit_conds_lits.items() if U.terms[u].val[0] == lid]
        taken = None
        bs = U.loops[lid].bounds
        if bs and U.loops[lid].iv is not None:
            lo, hi = (self.ev(bs[0]), self.ev(bs[1])) if len(bs) > 1 else (0, self.ev(bs[0]))
            st = self.ev(bs[2]) if len(bs) > 2 else 1
            n = max(0, math.ceil((hi - lo) / st))
            if self.trim and n > 8 and not any(l for u, l in exits):
                n -= self.trim
        else:
            lo, st = 0, 1
        k = 0
        while k < n:
            if k > self.cap:
                raise Unk("series")
            vals = dict(outer)
            vals.update(cur)
            vals["iv", lid] = lo + k * st
            self.frames.append((vals, {}, lid))
            try:
                for u, lits in exits:
                    vs = [None if v is None else v == p for v, p in ((self.cond(c), p) for c, p in lits)]
                    if False in vs or not vs:
                        continue
                    if None in vs:
                        raise Unk("exit")
                    taken = u
                if taken is not None:
                    break
                nxt = {}
                for m in mus:
                    x = U.mu_next.get(m.uid)
                    try:
                        nxt[m.uid] = cur[m.uid] if x is None else self.ev(x)
                    except Unk:
                        nxt[m.uid] = Unk
            finally:
                self.frames.pop()
            cur = nxt
            k += 1
        outer.update(cur)
        outer["iv", lid] = lo + k * st
        for u, lits in exits:
            outer["exit", u] = u == taken if taken is not None else not lits
        return cur[t.uid] if t is not None else None

    def root(self, t):
        """A random point of the bracket at which the callback returns normally."""
        A = t.args
        a, b = self.ev(A[0]), self.ev(A[1])
        r = random.Random("%s/%s" % (self.seed, t.uid))
        atom, pc = self.U.root_pc.get(t.uid, (None, None))
        for _ in range(20):
            x = a + (b - a) * r.uniform(0.02, 0.98)
            if pc is None:
                return x
            vals = dict(self.frames[-1][0])
            vals[atom.uid] = x
            self.frames.append((vals, {}, ("rv", atom.uid)))
            try:
                if satisfied(self, pc, skip=self.pc):
                    return x
            finally:
                self.frames.pop()
        raise Unk("root")

    def _ev(self, t):
        U, op, A = self.U, t.op, t.args
        if t.uid in self.fixed:
            return self.fixed[t.uid]
        if op == "const":
            v = t.val
            return float(v) if isinstance(v, Fraction) and v.denominator != 1 else int(v) if isinstance(v, Fraction) else v
        if op == "pi":
            return math.pi
        if op == "inf":
            return math.inf
        if op == "ext" and "eps" in str(t.val):
            return 2.220446049250313e-16
        if op == "nan":
            raise Unk("nan")
        if op == "input":
            if t.val in self.fixed:
                return self.fixed[t.val]
            raise Unk("input " + str(t.val))
        if op == "mu":
            vals = self.frames[-1][0]
            v = vals.get(t.uid)
            if v is None:
                v = self.loop(t)
            if v is Unk:
                raise Unk("mu")
            return v
        if op == "iv":
            vals = self.frames[-1][0]
            v = vals.get(("iv", t.val))
            if v is None:
                return self.passes
            return v
        if op in ("brentq", "minimizer", "rootvar", "minval", "opaque", "elem"):
            if op == "rootvar" and t.uid in self.frames[-1][0]:
                return self.frames[-1][0][t.uid]
            if op == "brentq" and len(A) >= 2:
                return self.root(t)
            v = self.fresh(t)
            if v is None:
                raise Unk(op)
            return v
        if op == "gamma":
            return self.ev(A[1] if self.choose(A[0]) else A[2])
        if op in ("and", "or", "not"):
            v = self.cond(t)
            if v is None:
                raise Unk("cond")
            return v
        if op in ("isfinite", "isnan"):
            x = A[0]
            while x.op == "gamma":
                x = x.args[1 if self.choose(x.args[0]) else 2]
            if x.op in ("nan", "inf"):
                return op == "isnan" and x.op == "nan"
        if op == "all" or op == "any":
            v = self.ev(A[0])
            return (all if op == "all" else any)(v) if isinstance(v, tuple) else bool(v)
        if op == "store" and len(A) == 3:
            a, i, x = self.ev(A[0]), self.ev(A[1]), self.ev(A[2])
            a = list(a)
            a[int(i)] = x
            return tuple(a)
        xs = [self.ev(a) for a in A]
        if op in SAME and len(xs) == 1:
            return xs[0]
        if op == "array":
            return tuple(xs)
        if op == "comp":
            return xs[0][int(xs[1])]
        if op in ("add", "sub", "mul", "div"):
            r = xs[0]
            for x in xs[1:]:
                r = arith(op, r, x)
            return r
        if op == "neg":
            return tuple(-a for a in xs[0]) if isinstance(xs[0], tuple) else -xs[0]
        if op == "pow":
            if isinstance(xs[0], complex):
                return xs[0] ** xs[1]
            r = xs[0] ** xs[1]
            if isinstance(r, complex):
                raise Unk("pow")
            return r
        if op == "abs":
            return tuple(map(abs, xs[0])) if isinstance(xs[0], tuple) else abs(xs[0])
        if op == "norm":
            return math.sqrt(sum(abs(a) ** 2 for a in xs[0]))
        if op == "dot":
            return sum(a * b for a, b in zip(*xs))
        if op == "cross":
            return cross(*xs)
        if op in FUN1 and len(xs) == 1:
            return tuple(FUN1[op](x) for x in xs[0]) if isinstance(xs[0], tuple) else FUN1[op](xs[0])
        if op == "arctan2":
            return math.atan2(*xs)
        if op == "mod":
            return xs[0] % xs[1]
        if op in ("max", "min"):
            return (max if op == "max" else min)(xs)
        if op == "copysign":
            return math.copysign(*xs)
        if op == "hypot":
            return math.hypot(*xs)
        if op == "sign":
            return tuple((a > 0) - (a < 0) for a in xs[0]) if isinstance(xs[0], tuple) else (xs[0] > 0) - (xs[0] < 0)
        if op == "lt":
            return xs[0] < xs[1]
        if op == "eq":
            return xs[0] == xs[1]
        if op == "veq":
            return tuple(a == b for a, b in zip(*xs))
        if op == "veq0":
            return tuple(a == 0 for a in xs[0])
        if op == "real":
            return xs[0].real
        if op == "imag":
            return xs[0].imag
        if op == "conj":
            return complex(xs[0]).conjugate()
        if op == "complex":
            return complex(*xs)
        if op == "isfinite":
            return math.isfinite(xs[0])
        if op == "isnan":
            return False
        if op == "sum":
            return sum(xs[0])
        if op == "int" or op == "toint":
            return int(xs[0])
        raise Unk(op)


def arith(op, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        n = len(a) if isinstance(a, tuple) else len(b)
        aa = a if isinstance(a, tuple) else (a,) * n
        bb = b if isinstance(b, tuple) else (b,) * n
        if len(aa) != len(bb):
            raise Unk("shape")
        return tuple(arith(op, x, y) for x, y in zip(aa, bb))
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    return a / b


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def nrm(a):
    return math.sqrt(dot(a, a))


def soft(c, seen=None):
    """A comparison with a tolerance or with a tiny literal: a test of nearness, not a region of the inputs."""
    if c.op == "not":
        return soft(c.args[0])
    if c.op not in ("lt", "eq"):
        return False
    st, seen = list(c.args), set()
    n = 0
    while st and n < 400:
        t = st.pop()
        if t.uid in seen:
            continue
        seen.add(t.uid)
        n += 1
        if t.op == "input" and t.val in ("atol", "rtol", "maxiter"):
            return True
        if t.op == "const" and isinstance(t.val, Fraction) and 0 < abs(t.val) < Fraction(1, 500):
            return True
        st += t.args
    return False


def inputs(seed, M, maxiter=10, z=None):
    """Generic inputs, one in five in the equatorial plane; z: sign of (r1 x r2)_z (0: a polar plane, any orientation)."""
    r = random.Random("in%s" % (seed,))
    while True:
        r1 = tuple(r.uniform(-2, 2) for _ in range(3))
        r2 = tuple(r.uniform(-2, 2) for _ in range(3))
        if z == 0:
            i = r.randint(0, 1)
            r1, r2 = ((a[0], 0.0, a[2]) if i else (0.0, a[1], a[2]) for a in (r1, r2))
        elif isinstance(seed, int) and seed % 5 == 4:
            # the equatorial plane
            r1, r2 = ((a[0], a[1], 0.0) for a in (r1, r2))
            if z and cross(r1, r2)[2] * z <= 0:
                continue
        elif z is not None and cross(r1, r2)[2] * z <= 0:
            continue
        if nrm(cross(r1, r2)) > 0.3 * nrm(r1) * nrm(r2) > 0.05:
            break
    m = int(r.randint(1, 3)) if M == "pos" else M
    return {"mu": r.uniform(0.4, 3), "r1": r1, "r2": r2, "tof": math.exp(r.uniform(-2.0, 3.0 + m)), "M": m, "atol": 1e-5, "rtol": 1e-7,
            "maxiter": maxiter}


def satisfied(P, pc, facts=(), skip=None):
    """The hard part of the path condition holds at the point (unknown conditions are left aside)."""
    U = P.U
    for uid, want in pc.lits.items():
        c = U.terms[uid]
        if soft(c) or skip is not None and uid in skip.lits:
            continue
        if c.op in ("and", "or", "not") or c.op in ("lt", "eq", "all", "any", "isfinite"):
            v = P.hard(c)
            if v is not None and v != want:
                return False
    for c, want in pc.ors:
        if skip is not None and any(c is o[0] for o in skip.ors):
            continue
        v = P.hard(c)
        if v is not None and v != want:
            return False
    for c, want in facts:
        if soft(c):
            continue
        v = P.hard(c)
        if v is not None and v != want:
            return False
    return True


def orbit_defects(mu, r1, r2, v1, v2):
    """Relative defects (plane and angular momentum, Kepler orbit) of a pair of states."""
    h1, h2 = cross(r1, v1), cross(r2, v2)
    s = nrm(r1) * nrm(v1) + nrm(r2) * nrm(v2)
    n = cross(r1, r2)
    n = tuple(x / nrm(n) for x in n)
    plane = (abs(dot(n, v1)) + abs(dot(n, v2))) / (nrm(v1) + nrm(v2))
    d10 = max(nrm(tuple(a - b for a, b in zip(h1, h2))) / s, plane)
    e1, e2 = ecc(mu, r1, v1), ecc(mu, r2, v2)
    E1, E2 = dot(v1, v1) / 2 - mu / nrm(r1), dot(v2, v2) / 2 - mu / nrm(r2)
    d11 = max(nrm(tuple(a - b for a, b in zip(e1, e2))) / (1 + nrm(v1) ** 2 * nrm(r1) / mu + nrm(v2) ** 2 * nrm(r2) / mu),
              abs(E1 - E2) / (dot(v1, v1) / 2 + mu / nrm(r1) + dot(v2, v2) / 2 + mu / nrm(r2)))
    return d10, d11


def ecc(mu, r, v):
    h = cross(r, v)
    w = cross(v, h)
    return tuple(a / mu - b / nrm(r) for a, b in zip(w, r))


def refute(U, pc, v1, v2, M, which, trials=400, facts=(), points=None):
    """Points on the path where the defect is large.  which: 0 = C10, 1 = C11.  Returns (violating, satisfied)."""
    bad, good = [], 0
    for i in range(trials) if points is None else points:
        i, own = (i, None) if points is None else i
        for k in (0, 1, 2):
            inp = dict(own) if own else inputs(i, M)
            if own is None and i % 3 == 1:
                # the tolerances must not enter the formulas
                inp["atol"], inp["rtol"] = 0.03, 0.02
            P = Point(U, (i, k), k, inp, pc)
            try:
                a, b = P.ev(v1), P.ev(v2)
                if len(a) != 3 or len(b) != 3 or not all(isinstance(x, (int, float)) and math.isfinite(x) for x in a + b):
                    continue
                if not 1e-3 < nrm(a) < 1e3 or not 1e-3 < nrm(b) < 1e3:
                    continue
                if not satisfied(P, pc, facts):
                    continue
                d = orbit_defects(P.fixed["mu"], P.fixed["r1"], P.fixed["r2"], a, b)[which]
                real = d > 1e-4 and own is None
                if not real and d > 3e-9:
                    # rounding, or a small defect: only the latter stays when the inputs move by a few ulp
                    real = True
                    for e in (3e-14, -2e-14):
                        near = dict(inp, mu=inp["mu"] * (1 + e), tof=inp["tof"] * (1 - e), r1=tuple(x * (1 + e) for x in inp["r1"]))
                        Q = Point(U, (i, k), k, near, pc)
                        d2 = orbit_defects(near["mu"], near["r1"], near["r2"], Q.ev(v1), Q.ev(v2))[which]
                        real = real and abs(d2 - d) < 1e-3 * d
            except (Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
            if real:
                bad.append((d, k, i))
            else:
                good += 1
        if points is None and (len(bad) >= 12 or good >= 60):
            break
    return bad, good


def senses(U, pc, v1, M, z, want, trials=60, facts=()):
    """Signs of the angular momentum along r1 x r2 at generic points: (wrong, right)."""
    wrong, right = [], 0
    for i in range(trials):
        for k in (0, 1, 2):
            P = Point(U, (i, k), k, inputs(i, M, z=z), pc)
            try:
                a = P.ev(v1)
                if len(a) != 3 or not all(isinstance(x, (int, float)) and math.isfinite(x) for x in a) or not 1e-3 < nrm(a) < 1e3:
                    continue
                if not satisfied(P, pc, facts):
                    continue
                r1, r2 = P.fixed["r1"], P.fixed["r2"]
                s = dot(cross(r1, a), cross(r1, r2))
            except (Unk, ZeroDivisionError, OverflowError, ValueError):
                continue
            if s * want < -1e-9:
                wrong.append((k, i))
            elif s * want > 1e-9:
                right += 1
        if len(wrong) >= 12 or right >= 40:
            break
    return wrong, right


def senses_at(U, pc, v1, points):
    """Signs of the angular momentum at given points (identifier, inputs, wanted sign along r1 x r2): (wrong, right)."""
    wrong, right = [], 0
    for i, inp, want in points:
        s = []
        for k in (0, 1, 2):
            P = Point(U, (i, k), k, inp, pc)
            try:
                a = P.ev(v1)
                if len(a) != 3 or not all(isinstance(x, (int, float)) and math.isfinite(x) for x in a) or not nrm(a) > 0:
                    continue
                if not satisfied(P, pc):
                    continue
                n = cross(inp["r1"], inp["r2"])
                s.append(want * dot(cross(inp["r1"], a), n) / (nrm(inp["r1"]) * nrm(a) * nrm(n)))
            except (Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
        if s and max(s) < -1e-6:
            wrong.append(i)
        elif s and min(s) > 1e-6:
            right += 1
    return wrong, right
