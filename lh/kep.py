"""The equation a solver drives to zero, compared with Kepler's equation of the conic it returns.

The iterate is held at a value, the time of flight that satisfies the solver's own stopping equation is computed from the formulas read
from the source, and the flight time along the returned conic from Kepler's equation must be that time.
"""
import math
import random

from . import point
from .point import Point, Unk, cross, dot, nrm, satisfied, soft
from .terms import T


def kepler_time(mu, r1, v1, r2, v2, M):
    """Time along the conic of (r1, v1) to (r2, v2) with M full revolutions; None when r2 is not reached."""
    d1, d2 = nrm(r1), nrm(r2)
    w = 2 / d1 - dot(v1, v1) / mu
    s1, s2 = dot(r1, v1), dot(r2, v2)
    if abs(w) * (d1 + d2) < 0.05 and not M:
        return near_parabola(w, mu, d1, d2, s1 / math.sqrt(mu), s2 / math.sqrt(mu))
    if w > 0:
        a = 1 / w
        n = math.sqrt(mu / a ** 3)
        E = [math.atan2(s / math.sqrt(mu * a), 1 - d / a) for s, d in ((s1, d1), (s2, d2))]
        d = (E[1] - E[0]) % (2 * math.pi) + 2 * math.pi * M
        return (d - (s2 - s1) / math.sqrt(mu * a)) / n
    if w < 0:
        a = -1 / w
        n = math.sqrt(mu / a ** 3)
        c = math.sqrt(mu * a)
        e = math.sqrt(max(0.0, (1 + d1 / a) ** 2 - s1 ** 2 / (mu * a)))
        if e == 0:
            return None
        H = [math.asinh(s / c / e) for s in (s1, s2)]
        return ((s2 - s1) / c - (H[1] - H[0])) / n
    return None


def near_parabola(w, mu, d1, d2, s1, s2):
    """Universal variables: no cancellation as the energy w goes to zero."""
    q = math.sqrt(abs(w))
    if w > 0:
        x = (math.atan2(q * s2, 1 - w * d2) - math.atan2(q * s1, 1 - w * d1)) / q
    elif w < 0:
        e = math.sqrt(max(0.0, (1 - w * d1) ** 2 + w * s1 * s1))
        if e == 0:
            return None
        x = (math.asinh(q * s2 / e) - math.asinh(q * s1 / e)) / q
    else:
        x = s2 - s1
    if w > 0 and x < 0:
        x += 2 * math.pi / q
    y = w * x * x
    if abs(y) > 60:
        return None
    c2 = sum((-y) ** k / math.factorial(2 * k + 2) for k in range(40))
    c3 = sum((-y) ** k / math.factorial(2 * k + 3) for k in range(40))
    return (x ** 3 * c3 + s1 * x * x * c2 + d1 * x * (1 - y * c3)) / math.sqrt(mu)


def nodes(roots, U, stop=lambda t: False):
    """Terms reachable without passing through loop variables."""
    seen, st = {}, list(roots)
    while st:
        t = st.pop()
        if t.uid in seen:
            continue
        seen[t.uid] = t
        if stop(t):
            continue
        st += t.args
    return seen


def factors(t):
    return [f for a in t.args for f in factors(a)] if t.op == "mul" else [t]


class Equation:
    def __init__(self, U, pc, v1, v2, M):
        self.U, self.pc, self.v1, self.v2, self.M = U, pc, v1, v2, M
        self._tof = {}
        near = nodes([v1, v2], U)
        loops = {}
        todo = [t for t in near.values() if t.op == "mu"]
        done = set()
        while todo:
            t = todo.pop()
            lid = U.mu_loop[t.uid]
            if lid in done:
                continue
            done.add(lid)
            ms = [U.terms[u] for u, l in U.mu_loop.items() if l == lid]
            body = [U.mu_next[m.uid] for m in ms if isinstance(U.mu_next.get(m.uid), T)] + list(U.loops[lid].conds)
            nb = nodes(body, U)
            loops[lid] = (ms, body, nb)
            todo += [x for x in nb.values() if x.op == "mu"]
        # loops whose pass reads the variables of another of these loops come after it (series, inner loops)
        self.frozen = []
        for lid, (ms, body, nb) in loops.items():
            other = [x for x in nb.values() if x.op == "mu" and U.mu_loop[x.uid] != lid and U.mu_loop[x.uid] in loops
                     and any(self.tof(y) for y in loops[U.mu_loop[x.uid]][1]) and not self.reads(loops[U.mu_loop[x.uid]], lid)]
            if not other and any(self.tof(b) for b in body) and not any(l in loops for l in U.loops[lid].outer):
                self.frozen.append(lid)
        self.roots = [t for t in near.values() if t.op == "brentq"]
        self.loops = loops
        self.cands = self.candidates()
        self.share = {}
        U = self.U
        self.truncated = any(l not in self.frozen and U.loops[l].bounds and U.loops[l].iv is not None
                             and not any(x for u, x in U.exit_conds_lits.items() if U.terms[u].val[0] == l) for l in loops)
        self.marks()

    def marks(self):
        """Which loops and terms depend on the flight time (bit 1) or on the state held fixed (bit 2)."""
        U = self.U
        self.held = {u for u, l in U.mu_loop.items() if l in self.frozen} | {b.uid for b in self.roots}
        self.held |= {t.uid for z, rs in self.ratios.values() for t in [z] + rs}
        self.held |= {U.root_pc[b.uid][0].uid for b in self.roots if b.uid in U.root_pc}
        body = {}
        for u, l in U.mu_loop.items():
            if l not in self.frozen:
                body.setdefault(l, []).extend(x for x in (U.mu_init.get(u), U.mu_next.get(u)) if x is not None)
        for l in body:
            body[l] += list(U.loops[l].conds) + list(U.loops[l].bounds)
        self.lm = {l: 0 for l in body}
        while True:
            self._m = {}
            new = {}
            for l, ts in body.items():
                m = 0
                for t in ts:
                    m |= self.mark(t)
                new[l] = m
            if new == self.lm:
                break
            self.lm = new
        self._m = {}

    def mark(self, t):
        r = self._m.get(t.uid)
        if r is not None:
            return r
        if t.uid in self.held:
            r = 2
        elif t.op == "input":
            r = 1 if t.val == "tof" else 0
        elif t.op == "mu":
            r = self.lm.get(self.U.mu_loop[t.uid], 3)
        elif t.op in ("exit", "iv", "nonempty"):
            l = t.val[0] if t.op == "exit" else t.val
            r = 2 if l in self.frozen else self.lm.get(l, 3)
        elif t.op in ("brentq_conv", "brentq_bracket", "opaque"):
            r = 2
        else:
            r = 0
            for a in t.args:
                r |= self.mark(a)
        self._m[t.uid] = r
        return r

    def seedmemo(self, P, src, mask):
        """Reuse the values of src that depend on nothing in the mask."""
        U = self.U
        vals, memo, _ = src.frames[0]
        m2 = P.frames[0][1]
        v2 = P.frames[0][0]
        for u, v in memo.items():
            if not self.mark(U.terms[u]) & mask:
                m2[u] = v
        for key, v in vals.items():
            if isinstance(key, tuple):
                l = key[1] if key[0] == "iv" else U.terms[key[1]].val[0]
                if l in self.frozen or self.lm.get(l, 3) & mask:
                    continue
            elif self.mark(U.terms[key]) & mask:
                continue
            v2[key] = v

    def reads(self, loop, lid):
        """The pass of loop reads variables of lid."""
        U = self.U
        if any(x.op == "mu" and U.mu_loop[x.uid] == lid for x in loop[2].values()):
            return True
        return any(x.op == "mu" and U.mu_loop[x.uid] == lid for x in nodes([U.mu_init[m.uid] for m in loop[0]], U).values())

    def tof(self, t):
        """t mentions the time of flight (not through loop variables)."""
        v = self._tof.get(t.uid)
        if v is None:
            v = self._tof[t.uid] = t.op == "input" and t.val == "tof" or any(self.tof(a) for a in t.args)
        return v

    def candidates(self):
        """(kind, term, owner): the terms that vanish when the solver has converged."""
        U = self.U
        out = []
        for lid in self.frozen:
            exits = [u for u, l in U.exit_conds_lits.items() if U.terms[u].val[0] == lid]
            have = set()
            for u in exits:
                st, seen = [c for c, p in U.exit_conds_lits[u]], set()
                while st:
                    c = st.pop()
                    if c.uid in seen:
                        continue
                    seen.add(c.uid)
                    if c.op in ("and", "or", "not", "gamma"):
                        st += c.args
                    elif c.op in ("lt", "eq"):
                        for a in c.args:
                            if a.op == "abs" and self.tof(a) and (u, a.args[0].uid) not in have:
                                have.add((u, a.args[0].uid))
                                out.append(("abs", a.args[0], lid, u))
            done = {w for _, w in have}
            for t in self.loops[lid][2].values():
                if t.op in ("sub", "add", "lt") and len(t.args) == 2 and t.uid not in done:
                    p, q = self.tof(t.args[0]), self.tof(t.args[1])
                    if p != q:
                        x, y = t.args if q else t.args[::-1]
                        if U.isnum(x) and self.iterate(y, lid) or self.iterate(x, lid) and not self.iterate(y, lid):
                            out += [("node", t, lid, u) for u in exits]
        for b in self.roots:
            if len(b.args) >= 3 and b.args[2].op != "nan":
                out.append(("root", b.args[2], b, None))
        return (self.contours() or out) + self.exact()

    def exact(self):
        """Flight times recognised without iteration: tests of nearness to a time that select a closed form."""
        U = self.U
        near = nodes([self.v1, self.v2], U)
        conds = {t.args[0].uid: t.args[0] for t in near.values() if t.op in ("gamma", "ite")}
        out = []
        for c in nodes(conds.values(), U).values():
            if c.op not in ("lt", "eq") or len(c.args) != 2 or not self.tof(c) or any(x.op == "mu" for x in nodes([c], U).values()):
                continue
            if c.op == "eq":
                a, b = c.args
                if not U.isnum(b):
                    continue
                d, want = (a, True) if b.val == 0 else (None, None)
            else:
                i = [k for k, a in enumerate(c.args) if a.op == "abs" and self.tof(a)]
                d, want = (c.args[i[0]].args[0], i[0] == 0) if len(i) == 1 and point.soft(c) else (None, None)
            if d is not None:
                out.append(("near", d, (c.uid, want), None))
        return out

    def contours(self):
        """Roots taken from contour integrals of 1/D: the ratios of moments vanish with D."""
        U = self.U
        out, self.ratios, self.circles = [], {}, []
        near = nodes([self.v1, self.v2], U)
        for lid, (ms, body, nb) in self.loops.items():
            ex = [t for t in nb.values() if t.op == "exp" and any(x.op == "iv" and x.val == lid for x in nodes([t], U).values())]
            if not ex or any(l in self.loops for l in U.loops[lid].outer):
                continue
            has = lambda t: any(x in ex for x in nodes([t], U).values())
            zs = [t for t in nb.values() if t.op in ("add", "sub") and len(t.args) == 2 and has(t) and not all(has(x) for x in t.args)
                  and any(y.op == "mul" and any(f in ex for f in factors(y)) for y in t.args)]
            top = [z for z in zs if not any(z is not y and z in nodes([y], U).values() for y in zs)]
            zs = zs if len(zs) == 1 else [z for z in zs if all(z is y or z in nodes([y], U).values() for y in zs)] or top
            tofz = lambda t: any(x.op == "input" and x.val == "tof" for x in nodes([t], U, lambda x: x in zs).values())
            ds = [t for t in nb.values() if t.op in ("sub", "add") and len(t.args) == 2 and tofz(t.args[0]) != tofz(t.args[1])
                  and any(z in nodes([x], U).values() for z in zs for x in t.args if not tofz(x))]
            rs = [t for t in near.values() if t.op == "div" and all(any(x.op == "mu" and U.mu_loop[x.uid] == lid for x in nodes([y], U).values())
                                                                     for y in t.args)]
            rs = [t for t in rs if not any(x is not t and x in rs for x in nodes([t], U).values())]
            if len(zs) == 1:
                self.circles.append((lid, zs[0]))
            if len(zs) == 1 and len(ds) == 1 and rs:
                self.ratios[lid] = (zs[0], rs)
                out.append(("contour", ds[0], lid, None))
        self.frozen = [l for l in self.frozen if l not in self.ratios]
        return out

    def iterate(self, t, lid):
        U = self.U
        return any(x.op == "mu" and U.mu_loop[x.uid] == lid for x in nodes([t], U).values())

    # -- evaluation ---------------------------------------------------------------
    def states(self, seed, k, inp):
        """The loop variables after k passes at the inputs."""
        U = self.U
        P = Point(U, seed, k, inp, self.pc)
        P.full, P.limited = True, set(self.frozen)
        fix = {}
        for lid in self.frozen:
            for m in self.loops[lid][0]:
                try:
                    fix[m.uid] = P.ev(m)
                except Unk:
                    continue
            iv = P.frames[0][0].get(("iv", lid))
            if iv is not None:
                fix["iv", lid] = iv
        for b in self.roots:
            try:
                fix[b.uid] = P.ev(b)
                fix[U.root_pc[b.uid][0].uid] = fix[b.uid]
            except Unk:
                continue
        return fix

    def at(self, seed, k, inp, fix, tof, trim=0):
        i = dict(inp)
        i["tof"] = tof
        P = Point(self.U, seed, k, i, self.pc)
        P.full, P.trim = True, trim
        P.forced = fix.get("forced", P.forced)
        last = self.share.get((seed, k, trim))
        if last is not None:
            same = last.fix is fix
            self.seedmemo(P, last, 1 if same else 3)
        P.fix = fix
        P.atoms = {} if last is None else last.atoms
        for f, v in fix.items():
            if f == "forced":
                continue
            if isinstance(f, tuple):
                P.frames[0][0][f] = v
            else:
                P.fixed[f] = v
        self.share = {x: y for x, y in self.share.items() if x[:2] == (seed, k)}
        self.share[seed, k, trim] = P
        return P

    def value(self, P, c):
        if isinstance(c, T) and c.op == "lt":
            v = P.ev(c.args[0]) - P.ev(c.args[1])
        else:
            v = P.ev(c)
        if isinstance(v, complex):
            if abs(v.imag) > 1e-9 * (1 + abs(v)):
                raise Unk("complex")
            v = v.real
        if not isinstance(v, (int, float)) or not math.isfinite(v):
            raise Unk("value")
        return v

    def solve(self, seed, k, inp, fix, c, trim=0):
        """The time of flight at which the candidate vanishes."""
        g = lambda t: self.value(self.at(seed, k, inp, fix, t, trim), c)
        t0, t1 = inp["tof"], inp["tof"] * 1.03
        f0, f1 = g(t0), g(t1)
        top = max(abs(f0), abs(f1))
        for _ in range(30):
            if f1 == 0 or abs(t1 - t0) <= 1e-12 * t1:
                break
            if f1 == f0:
                return None
            t2 = t1 - f1 * (t1 - t0) / (f1 - f0)
            t2 = min(max(t2, 0.3 * t1), 3 * t1)
            t0, f0 = t1, f1
            t1, f1 = t2, g(t2)
        else:
            return None
        if abs(f1) > 1e-8 * (top + 1e-30):
            return None
        # a simple zero
        try:
            h = max(abs(g(t1 * 1.01)), abs(g(t1 * 0.99)))
        except Unk:
            h = top
        if h < 1e-9 * top or h == 0:
            return None
        return t1

    def inside(self, seed, k, inp, lid):
        """A root inside the contour, in place of the ratios of moments."""
        U = self.U
        for l, z in sorted(self.circles, key=lambda x: len(point.deps(U).of(x[1]))):
            P = Point(U, seed, k, inp, self.pc)
            P.full = True
            try:
                n = P.ev(U.loops[l].bounds[-1])
                ends = []
                for i in (0, n / 2):
                    P.frames.append((dict(P.frames[0][0]), {}, l))
                    P.frames[-1][0]["iv", l] = i
                    try:
                        ends.append(P.ev(z).real)
                    finally:
                        P.frames.pop()
                break
            except (Unk, IndexError):
                continue
        else:
            raise Unk("contour")
        r = random.Random("%s/%s" % (seed, k))
        x = ends[1] + (ends[0] - ends[1]) * r.uniform(0.03, 0.97)
        fix = {}
        for l, (zc, rs) in self.ratios.items():
            for t in [zc] + rs:
                fix[t.uid] = complex(x)
        return fix

    def chosen(self, fix, owner, exit_):
        f = dict(fix)
        if exit_ is not None:
            for u in self.U.exit_conds_lits:
                if self.U.terms[u].val[0] == owner:
                    f["exit", u] = u == exit_
        return f

    def moved(self, fix, owner, d=1e-2):
        """The state with the iterates of the owner displaced."""
        f = dict(fix)
        if owner in self.ratios:
            ids = list(fix)
        elif isinstance(owner, T):
            ids = [owner.uid, self.U.root_pc[owner.uid][0].uid]
        else:
            ids = [m.uid for m in self.loops[owner][0]]
        for i in ids:
            if isinstance(f.get(i), (float, int, complex)) and not isinstance(f.get(i), bool):
                f[i] = f[i] * (1 + d) if f[i] else d
        return f

    def vel(self, P):
        a, b = P.ev(self.v1), P.ev(self.v2)
        a, b = (tuple(x.real if isinstance(x, complex) else x for x in v) for v in (a, b))
        if len(a) != 3 or len(b) != 3 or not all(isinstance(x, (int, float)) and math.isfinite(x) for x in a + b):
            raise Unk("velocity")
        return a, b

    def depends(self, seed, k, inp, fix, owner, t, a):
        """Displacing the iterate changes the velocities."""
        for d in (1e-2, 1e-4, 6e-2, 0.2):
            try:
                b, _ = self.vel(self.at(seed, k, inp, self.moved(fix, owner, d), t))
            except (Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
            if nrm(tuple(x - y for x, y in zip(a, b))) > 1e-11 * nrm(a):
                return True
        return False

    def probe(self, seed, k, inp):
        """(kind, candidate, tof of the stopping equation, Kepler time, energy) for every candidate with a solution."""
        out = []
        try:
            fix0 = self.states(seed, k, inp)
        except Unk:
            return out
        for kind, c, owner, ex in self.cands:
            if kind == "contour":
                try:
                    fix0 = self.inside(seed, k, inp, owner)
                except (Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                    continue
            if kind == "near":
                fix = dict(fix0, forced={owner[0]: owner[1]})
            else:
                fix = self.chosen(fix0, owner, ex)
            try:
                t = self.solve(seed, k, inp, fix, c)
                if t is None:
                    continue
                if self.truncated:
                    # truncated series must have converged at the point
                    t2 = self.solve(seed, k, inp, fix, c, 1)
                    if t2 is None or abs(t - t2) > 1e-8 * t:
                        continue
                P = self.at(seed, k, inp, fix, t)
                a, b = self.vel(P)
                if not satisfied(P, self.pc):
                    continue
                if kind != "near" and not self.depends(seed, k, inp, fix, owner, t, a):
                    continue
                w = kepler_time(inp["mu"], inp["r1"], a, inp["r2"], b, inp["M"])
                e = 2 / nrm(inp["r1"]) - dot(a, a) / inp["mu"]
                if w is None or inp["M"] and e * (nrm(inp["r1"]) + nrm(inp["r2"])) < 1e-3:
                    continue
                if kind != "near" and abs(e) * (nrm(inp["r1"]) + nrm(inp["r2"])) < 1e-6:
                    # the iterate is at the singularity of the parabola: rounding decides
                    continue
                out.append((kind, c, t, w, e))
            except (Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
        return out


def geometry(seed, M, prog=True, maxiter=10):
    """Inputs whose flight times are spread about the parabolic time (M = 0, one in four close to it) or above M periods of the
    smallest orbit; both transfer angles occur."""
    inp = point.inputs(seed, M, maxiter)
    r = random.Random("tof%s" % (seed,))
    r1, r2, mu = inp["r1"], inp["r2"], inp["mu"]
    if r.random() < 0.35:
        # a moderate angle
        w = r.uniform(0.25, 0.8)
        t = tuple(y * w + x * (1 - w) * nrm(r2) / nrm(r1) for x, y in zip(r1, r2))
        if nrm(cross(r1, t)) > 0.1 * nrm(r1) * nrm(t):
            r2 = inp["r2"] = tuple(x * nrm(r2) / nrm(t) for x in t)
    c = nrm(tuple(x - y for x, y in zip(r1, r2)))
    s = (nrm(r1) + nrm(r2) + c) / 2
    z = cross(r1, r2)[2]
    short = (z > 0) == prog if z else True
    if inp["M"]:
        inp["tof"] = 2 * math.pi * math.sqrt((s / 2) ** 3 / mu) * (inp["M"] + r.uniform(0.9, 4))
    else:
        tp = math.sqrt(2 / mu) / 3 * (s ** 1.5 - (1 if short else -1) * (s - c) ** 1.5)
        q = r.random()
        d = r.uniform(-0.06, 0.06) if q < 0.2 else r.choice((-1, 1)) * 10 ** r.uniform(-4, -1.7)
        inp["tof"] = tp * (1 + d if q < 0.4 else math.exp(r.uniform(-2.2, 2.6)))
    return inp, short


def leaves(U, t, memo):
    """Names of the inputs a term reads, "?" for anything that is not a plain function of the inputs."""
    v = memo.get(t.uid)
    if v is None:
        if t.op == "input":
            v = frozenset([t.val])
        elif t.op in ("mu", "iv", "exit", "brentq", "brentq_conv", "minimizer", "minval", "min_success", "summary", "elem", "opaque"):
            v = frozenset("?")
        else:
            memo[t.uid] = frozenset("?")
            v = frozenset().union(*[leaves(U, a, memo) for a in t.args]) if t.args else frozenset()
        memo[t.uid] = v
    return v


def regions(U, roots, pc):
    """Comparisons among plain functions of the inputs that select a branch."""
    memo, out = {}, []
    seen, st = set(), list(roots) + [U.terms[u] for u in pc.lits] + [c for c, _ in pc.ors]
    while st:
        t = st.pop()
        if t.uid in seen:
            continue
        seen.add(t.uid)
        st += t.args
        if t.op == "mu":
            st += [x for x in (U.mu_init.get(t.uid), U.mu_next.get(t.uid)) if isinstance(x, T)]
        if t.op in ("lt", "eq"):
            ls = leaves(U, t, memo)
            if ls and ls <= {"r1", "r2", "mu", "tof", "M"}:
                out.append((t, None))
        elif t.op in ("min", "max") and len(t.args) == 2 or t.op == "abs":
            ls = leaves(U, t, memo)
            if ls and ls <= {"r1", "r2", "mu", "tof", "M"}:
                out.append((t.args[0], t.args[1] if len(t.args) == 2 else 0))
    return out


def directed(E, M, prog, seeds=4):
    """Inputs in the middle of every region that the selections of a solver cut out of the transfer angle, the ratio of the
    distances, the flight time and the number of revolutions: (identifier, inputs, short way, relative tolerance)."""
    U = E.U
    conds = regions(U, [E.v1, E.v2], E.pc)
    if not conds:
        return

    def vec(inp):
        P = Point(U, 0, 0, inp)
        P.budget = 10 ** 7
        out = []
        for c, d in conds:
            try:
                out.append(P.cond(c) if d is None else P.ev(c) < (P.ev(d) if isinstance(d, T) else d))
            except (Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                out.append(None)
        return out

    def split(f, xs):
        vs = [vec(f(x)) for x in xs]
        cuts = []
        for x, y, a, b in zip(xs, xs[1:], vs, vs[1:]):
            if a == b:
                continue
            lo, hi = x, y
            for _ in range(34):
                m = (lo + hi) / 2
                if vec(f(m)) == a:
                    lo = m
                else:
                    hi = m
            cuts.append((lo + hi) / 2)
        return cuts
    for b in range(2 * seeds):
        base, short = geometry(b // 2, M, prog)
        r1, r2 = base["r1"], base["r2"]
        n1, n2 = nrm(r1), nrm(r2)
        h = cross(r1, r2)
        if (h[2] > 0) != prog:
            h = tuple(-x for x in h)
        e1 = tuple(x / n1 for x in r1)
        e2 = cross(h, e1)
        e2 = tuple(x / nrm(e2) for x in e2)

        here = math.atan2(dot(r2, e2), dot(r2, e1)) % (2 * math.pi)

        def angle(x, base=base):
            return dict(base, r2=tuple(n2 * (math.cos(x) * p + math.sin(x) * q) for p, q in zip(e1, e2)))

        if b % 2:
            # the other way round
            base = angle(2 * math.pi - here)
            r2 = base["r2"]

        def ratio(x):
            return dict(base, r2=tuple(p * 10 ** x for p in r2), tof=base["tof"] * max(1.0, 10 ** (1.5 * x)))

        def time(x):
            return dict(base, tof=base["tof"] * 10 ** x)

        def revs(x):
            m = max(1, int(round(x)))
            return dict(base, M=m, tof=base["tof"] * (m + 1) / base["M"])
        for name, f, xs in (("angle", angle, [2 * math.pi * (i + 0.5) / 180 for i in range(180)] if b % 2 == 0 else []),
                            ("ratio", ratio, [i / 12 for i in range(-24, 25)]),
                            ("time", time, [i / 12 for i in range(0 if M else -24, 25)]),
                            ("revs", revs, list(range(1, 31)) if M == "pos" else [])):
            cuts = split(f, xs) if xs else []
            if not cuts:
                continue
            ends = (0.0, math.pi, 2 * math.pi) if name == "angle" else (xs[0], xs[-1])
            pts = sorted(set(cuts) | set(ends))
            for lo, hi in zip(pts, pts[1:]):
                x = (lo + hi) / 2
                tol = 1e-6
                if name == "angle":
                    if hi - lo < 1e-5:
                        continue
                    tol = max(tol, 1e-13 / math.sin(x) ** 2)
                inp = f(x)
                z = cross(inp["r1"], inp["r2"])[2]
                yield (name, b, round(x, 6)), inp, (z > 0) == prog, tol
