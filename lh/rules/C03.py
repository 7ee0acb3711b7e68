"""C03 - no unconverged result is returned."""
from fractions import Fraction

from ..run import *

RULES = {
    "C03.loop": "for every loop limited by maxiter and every way out of it that can be followed by a return, the path condition of "
                "the return holds a satisfied convergence test (a comparison with a tolerance built on atol/rtol, or an exact hit) on "
                "quantities of that loop",
    "C03.finder": "every scipy root finder or minimiser on a returning path raises by itself on failure or has its "
                  "convergence flag tested",
    "C03.tolerance": "the tolerance of a convergence test, or given to a root finder that ends the search, is built on atol/rtol with "
                     "coefficients of at most one and vanishes with them",
    "C03.tof": "no choice lets velocities be returned that depend on the time of flight in no way, unless a comparison of the time "
               "of flight with the caller's tolerances (or an equality) has selected them",
}
EXPLANATION = ("Each solver is interpreted per flag combination; for each loop whose bound depends on maxiter, each exit is combined "
               "with the path condition of each return and literals are propagated; the resulting facts must include a "
               "satisfied tolerance comparison that depends on the iterates of the loop.")
ASSUMPTIONS = ["inputs are valid", "comparisons are not made with not-a-number"]
FLOOR = 40
FLOOR_UNITS = 10


def units(root, tier):
    return solver_names(Interp(root))


def run_unit(name, root, tier):
    out = []
    for M in (0, "pos"):
        for prog in (True, False):
            for low in (True, False):
                for fo in (False, True):
                    def run(force=None):
                        I = Interp(root)
                        I.force = force or {}
                        return SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=fo)
                    r = run()
                    if not r.returned:
                        continue
                    tag = "M=%s prograde=%s low=%s full_output=%s" % (M, prog, low, fo)
                    out += one(r, name, tag, run)
    return out


def own_terms(U, roots):
    """Terms of a value without following loop recurrences."""
    return reach(roots).values()


def limited(U, L):
    """The loop is limited by the caller's maxiter."""
    ts = list(L.bounds)
    h = getattr(L, "header_cond", None)
    if h is not None:
        ts.append(h)
    for tag, e in L.exits:
        ts += [c for c, p in U.exit_conds_lits.get(e.uid, ()) if isinstance(c, T)]
    return any(t.op == "input" and t.val == "maxiter" for t in own_terms(U, ts))


class Deps:
    def __init__(self, U):
        self.U, self.memo = U, {}

    def __call__(self, t):
        r = self.memo.get(t.uid)
        if r is None:
            ins, loops = set(), set()
            for x in reach([t], U=self.U).values():
                if x.op == "input":
                    ins.add(x.val)
                elif x.op == "mu":
                    loops.add(self.U.mu_loop[x.uid])
                elif x.op == "iv":
                    loops.add(x.val)
                elif x.op == "exit":
                    loops.add(x.val[0])
                elif x.op in ("brentq", "minimizer", "minval"):
                    loops.add(("ext", x.uid))
                elif x.op in ("summary", "elem", "opaque") and isinstance(x.val, tuple):
                    for y in flatten(x.val):
                        if y in self.U.loops:
                            loops.add(y)
            r = self.memo[t.uid] = (ins, loops)
        return r


def flatten(v, depth=3):
    if isinstance(v, tuple):
        yield v
        if depth:
            for x in v:
                yield from flatten(x, depth - 1)


TOLS = {"atol", "rtol"}


def tests(U, D, pc):
    """Satisfied convergence tests among the facts: (literal, tolerance term or None, loops)."""
    out = []
    for uid, v in pc.lits.items():
        t = U.terms[uid]
        if t.op == "eq" and v:
            a, b = t.args
            la, lb = D(a)[1], D(b)[1]
            if la | lb and not counts(U, t):
                out.append((t, None, la | lb))
        elif t.op == "lt":
            small, big = t.args if v else t.args[::-1]
            # small (<|<=) big
            bi, bl = direct(U, big)
            if bi & TOLS and not direct(U, small)[0] & TOLS:
                ls = D(small)[1]
                if ls and magnitude(small):
                    out.append((t, big, ls))
            elif direct(U, small)[0] & TOLS and U.isnum(big):
                # quotient form  |x| / tol <= 1
                ls = D(small)[1]
                if ls and magnitude(small):
                    out.append((t, None, ls))
    return out


def counts(U, t):
    """The comparison reads nothing of its loops but pass counters."""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "mu":
            n = U.mu_next.get(x.uid)
            if not (isinstance(n, T) and n.op in ("add", "sub") and any(a is x for a in n.args) and all(a is x or U.isnum(a) for a in n.args)):
                return False
            continue
        if x.op in ("exit", "brentq", "minimizer", "minval", "summary", "elem", "opaque"):
            return False
        st += x.args
    return True


def stalled(U, D, pc, t, val):
    """The equality says that a quantity other than the returned iterate has stopped changing (the residual, say):
    that is no convergence test."""
    if t.op != "eq":
        return False
    a, b = t.args
    if U.isnum(b) and b.val == 0 and a.op == "sub":
        a, b = a.args
    if not (D(a)[1] and D(b)[1]):
        return False
    seen, st = set(), list(flat_values(val))[:2]
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x is a or x is b:
            return False
        v = pc.eval(x.args[0]) if x.op == "gamma" else None
        st += x.args if v is None else x.args[1:2] if v else x.args[2:]
    return True


def direct(U, t):
    ins, loops = set(), set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "input":
            ins.add(x.val)
        if x.op in ("mu", "brentq", "exit"):
            continue
        st += x.args
    return ins, loops


def magnitude(t):
    if t.rng.nonneg():
        return True
    if t.op in ("abs", "norm", "max"):
        return True
    if t.op == "div":
        return magnitude(t.args[0])
    if t.op == "mul":
        return all(magnitude(x) for x in t.args)
    if t.op == "add":
        return all(magnitude(x) for x in t.args)
    if t.op == "gamma":
        return magnitude(t.args[1]) and magnitude(t.args[2])
    return False


def at_zero(U, t):
    """Upper bound of a tolerance when atol = rtol = 0, or None."""
    if t.op == "input":
        return Fraction(0) if t.val in TOLS else None
    if U.isnum(t):
        return abs(Fraction(t.val))
    a = [at_zero(U, x) for x in t.args]
    if t.op == "add":
        return None if None in a else sum(a)
    if t.op == "sub":
        return None if None in a else sum(a)
    if t.op == "mul":
        if any(x == 0 for x in a):
            return Fraction(0)
        return None if None in a else a[0] * a[1]
    if t.op == "div":
        if a[0] == 0:
            return Fraction(0)
        return a[0] / a[1] if None not in a and a[1] else None
    if t.op == "max":
        return None if None in a else max(a)
    if t.op == "min":
        k = [x for x in a if x is not None]
        return min(k) if k else None
    if t.op == "gamma":
        return None if None in a[1:] else max(a[1:])
    if t.op == "sqrt":
        return Fraction(0) if a[0] == 0 else None
    if t.op == "pow":
        return Fraction(0) if a[0] == 0 and t.args[1].rng.pos() else None
    if t.op in ("abs", "copy", "float", "real"):
        return a[0] if a else None
    return None


def widened(U, t):
    """A coefficient above one applied to atol or rtol."""
    if t.op in ("add", "sub", "max", "min"):
        return any(widened(U, x) for x in t.args)
    if t.op == "gamma":
        return any(widened(U, x) for x in t.args[1:])
    if t.op == "neg":
        return widened(U, t.args[0])
    if t.op in ("mul", "div"):
        c = Fraction(1)
        st, tol = [(t, 1)], False
        while st:
            x, e = st.pop()
            if x.op == "mul":
                st += [(y, e) for y in x.args]
            elif x.op == "div":
                st += [(x.args[0], e), (x.args[1], -e)]
            elif U.isnum(x) and x.val != 0:
                c = c * abs(Fraction(x.val)) ** e
            elif x.op == "input" and x.val in TOLS and e == 1:
                tol = True
            elif e == 1 and x.op in ("add", "max", "min") and direct(U, x)[0] & TOLS:
                tol = True
                if widened(U, x):
                    return True
        return tol and c > 1
    return False


def loose(U, t):
    """A share of a tolerance that does not shrink with atol and rtol: an addend scaled by a quantity and a constant of its own."""
    if t.op in ("add", "sub", "max"):
        return any(loose(U, x) for x in t.args)
    if t.op == "min":
        return all(loose(U, x) for x in t.args)
    if t.op == "gamma":
        return any(loose(U, x) for x in t.args[1:])
    if U.isnum(t) or direct(U, t)[0] & TOLS:
        return False
    c, st = Fraction(1), [(t, 1)]
    while st:
        x, e = st.pop()
        if x.op == "mul":
            st += [(y, e) for y in x.args]
        elif x.op == "div":
            st += [(x.args[0], e), (x.args[1], -e)]
        elif U.isnum(x) and x.val != 0:
            c = c * abs(Fraction(x.val)) ** e
        elif x.op == "neg":
            st.append((x.args[0], e))
        elif x.op == "ext" and "eps" in str(x.val):
            c = c * Fraction(1, 2**52) ** e
    return c > Fraction(1, 10**8)


def loop_checks(r, ret, lid, etag):
    """(leaves with a test, leaves without) over one return of a run for one exit of a loop."""
    U = r.U
    L = U.loops.get(lid)
    e = dict(L.exits).get(etag) if L is not None else None
    if e is None:
        return [], []
    others = {k for k, _ in main_loops(U)}
    D = r.D = getattr(r, "D", None) or Deps(U)
    st, val = ret
    c = st.pc
    exits = {x.uid for _, x in L.exits}
    from_loop = lid in D_vals(U, D, flat_values(val))
    if not from_loop and not exits & set(reach([U.terms[u] for u in c.lits] + [t for t, _ in c.ors])):
        return [], []
    for uid, v in L.entry.lits.items():
        c = c.assume(U.terms[uid], v)
        if c is None:
            return [], []
    c = c.assume(e, True)
    if c is None:
        return [], []
    if others and lid in decides(r):
        others = ()
    good = lambda x: any(lid in ls and about(U, t, lid) and not stalled(U, D, x, t, val) for t, _, ls in tests(U, D, x)) or superseded(U, x, val, lid, others)
    return split(U, c, good)


def about(U, t, lid):
    """The literal tests quantities of this very loop, not of a later loop that merely starts from its result."""
    memo = U.__dict__.setdefault("_about", {})
    k = t.uid, lid
    if k in memo:
        return memo[k]
    st, seen, r = [t], set(), False
    while st and not r:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        own = U.mu_loop[x.uid] if x.op == "mu" else x.val if x.op == "iv" else x.val[0] if x.op == "exit" else None
        if own is not None:
            if own == lid:
                r = True
            elif lid in U.loops[own].parents and x.op == "mu":
                st += [y for y in (U.mu_init[x.uid], U.mu_next.get(x.uid)) if y is not None]
            continue
        st += x.args
    memo[k] = r
    return r


OWN = "own tolerance in a search that decides feasibility"


def own_tolerance(U, pc, lid):
    """The facts hold a satisfied comparison of a magnitude of this loop with a small constant (or a choice of constants)."""
    for uid, v in pc.lits.items():
        t = U.terms[uid]
        if t.op == "lt":
            small, big = t.args if v else t.args[::-1]
            if magnitude(small) and about(U, small, lid) and _const_small(U, big):
                return True
    return False


def _const_small(U, t, busy=()):
    if U.isnum(t):
        return 0 < t.val <= Fraction(1, 50)
    if t.op == "gamma":
        return all(_const_small(U, x, busy) for x in t.args[1:])
    if t.op == "mu":
        return t.uid in busy or all(_const_small(U, x, busy + (t.uid,)) for x in (U.mu_init[t.uid], U.mu_next.get(t.uid)) if x is not None)
    return False


def decides(r):
    """The loops whose values decide a failure (a minimum time that tells whether the request is feasible): more than starting values."""
    got = getattr(r, "_decides", None)
    if got is None:
        got = r._decides = set()
        for x in r.raises:
            for t, _ in x.pc.asserted[-1:]:
                if t.op != "exit" and "tof" in direct(r.U, t)[0]:
                    seen, st = set(), [t]
                    while st:
                        y = st.pop()
                        if y.uid in seen:
                            continue
                        seen.add(y.uid)
                        if y.op == "exit":
                            continue
                        if y.op == "mu":
                            got.add(r.U.mu_loop[y.uid])
                            continue
                        st += y.args
    return got


def main_loops(U):
    loops = {lid: L for lid, L in U.loops.items() if L.__dict__.get("done") and limited(U, L)}
    return [(lid, L) for lid, L in loops.items() if not any(p in loops for p in L.parents)]


def one(r, name, tag, run):
    U, I = r.U, r.I
    D = Deps(U)
    out = []
    tols = {}
    forced = {}
    for ri, (st, val) in enumerate(r.rets):
        pc = st.pc
        for lid, L in main_loops(U):
            for etag, e in L.exits:
                got, miss = loop_checks(r, (st, val), lid, etag)
                D = r.D
                if miss:
                    # look again with the other ways out of the loop cut off (no joined paths)
                    q = forced.get((lid, etag))
                    if q is None:
                        q = forced[lid, etag] = run({lid: etag})
                    got, miss = [], []
                    for ret in q.rets:
                        a, b = loop_checks(q, ret, lid, etag)
                        got, miss = got + a, miss + b
                    D = getattr(q, "D", D)
                V = D.U
                where = "%s exit %s" % (L.site[2], etag)
                if miss and all(own_tolerance(q.U, x, lid) for x in miss):
                    out.append(Rec("bad", "C03.tolerance", name, OWN, "the search at line %s, which decides whether the request is feasible, stops on a "
                                   "tolerance of its own instead of one built on atol/rtol" % L.site[1], L.site))
                elif miss:
                    out.append(Rec("bad", "C03.loop", name, "%s, %s" % (where, tag),
                                   "a result is returned although the loop at line %s is left without its convergence test "
                                   "being met" % L.site[1], L.site))
                elif got:
                    out.append(Rec("ok", "C03.loop", name, "%s, %s" % (where, tag), site=L.site))
                    for x in got:
                        for t, tol, ls in tests(V, D, x):
                            if lid in ls and tol is not None and about(V, t, lid):
                                tols[id(V), tol.uid] = (V, tol, L.site, where)
        out += time_free(r, D, st, val, name, tag)
        # root finders
        seen = set()
        for t in reach([x for x in flat_values(val)] + [U.terms[u] for u in pc.lits], U=U).values():
            if t.op == "brentq" and t.uid not in seen:
                seen.add(t.uid)
                out.append(finder(U, name, tag, t, pc, "brentq_conv", val))
            elif t.op == "minimizer" and t.uid not in seen:
                seen.add(t.uid)
                out.append(finder(U, name, tag, t, pc, "min_success", val))
            elif t.op.startswith("ext:scipy.optimize") or (t.op == "ext" and "scipy.optimize" in str(t.val)):
                out.append(Rec("und", "C03.finder", name, tag, "unmodelled root finder %s" % (t.val or t.op)))
    for V, tol, site, where in tols.values():
        z = at_zero(V, tol)
        if z is not None and z > Fraction(1, 10**8):
            out.append(Rec("bad", "C03.tolerance", name, "%s, %s" % (where, tag), "the tolerance does not vanish with atol and rtol "
                           "(floor %g)" % float(z), tol.site or site))
        elif widened(V, tol) or loose(V, tol):
            out.append(Rec("bad", "C03.tolerance", name, "%s, %s" % (where, tag), "the tolerance is wider than atol/rtol: %s" % show(tol, 4)[:120],
                           tol.site or site))
        else:
            out.append(Rec("ok", "C03.tolerance", name, "%s, %s" % (where, tag), site=site))
    return out


def time_free(r, D, st, val, name, tag):
    U, pc = r.U, st.pc
    vs = list(flat_values(val))[:2]
    if len(vs) < 2 or not all("tof" in D(v)[0] for v in vs):
        return []

    def walk(pc):
        """(the velocities may depend on tof, the undecided choices one branch of which does not)"""
        dep, cuts, todo, seen = False, [], list(vs), set()
        while todo:
            x = todo.pop()
            if x.uid in seen or "tof" not in D(x)[0]:
                continue
            seen.add(x.uid)
            if x.op == "gamma":
                v = pc.eval(x.args[0])
                if v is not None:
                    todo.append(x.args[1] if v else x.args[2])
                    continue
                free = ["tof" not in D(y)[0] for y in x.args[1:]]
                if free[0] != free[1]:
                    cuts.append((x.args[0], free[0]))
                todo += x.args
            elif x.op == "mu":
                todo += [y for y in (U.mu_init.get(x.uid), U.mu_next.get(x.uid)) if isinstance(y, T)] + [y for y in U.loops[U.mu_loop[x.uid]].conds if isinstance(y, T)]
            elif x.op in ("input", "iv", "exit", "brentq", "minimizer", "minval", "summary", "elem", "opaque"):
                dep = True
            else:
                todo += x.args
        return dep, cuts

    def selects(t, v):
        if t.op == "eq":
            return v
        if t.op != "lt":
            return False
        small, big = t.args if v else t.args[::-1]
        z = at_zero(U, big)
        return bool(direct(U, big)[0] & TOLS) and not widened(U, big) and not loose(U, big) and not (z is not None and z > Fraction(1, 10**8))

    def near(pc):
        if any("tof" in direct(U, U.terms[u])[0] and selects(U.terms[u], v) for u, v in pc.lits.items()):
            return True
        return any("tof" in direct(U, t)[0] and any(selects(x, p) for x, p in options(pc, t, v) or ()) for t, v in pc.ors)

    st, done = [(pc, 0)], set()
    while st:
        c, k = st.pop()
        dep, cuts = walk(c)
        if not dep:
            if not near(c):
                return [Rec("bad", "C03.tof", name, tag, "velocities that do not depend on the time of flight can be returned", vs[0].site)]
            continue
        for t, b in cuts:
            if (t.uid, b, k) not in done and k < 3:
                done.add((t.uid, b, k))
                d = c.assume(t, b)
                if d is not None:
                    st.append((d, k + 1))
    return [Rec("ok", "C03.tof", name, tag)]


def D_vals(U, D, vals):
    out = set()
    for v in vals:
        out |= D(v)[1]
    return out


def superseded(U, pc, val, lid, others):
    """Under pc the velocities come from a root finder and not from this loop."""
    vs = list(flat_values(val))[:2]
    ext, st, seen = False, list(vs), set()
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "brentq":
            ext = True
            continue
        if x.op == "mu" and U.mu_loop[x.uid] == lid:
            return False
        if x.op == "iv" and x.val == lid:
            return False
        if x.op == "mu" and U.mu_loop[x.uid] in others:
            ext = True
        if x.op == "gamma":
            v = pc.eval(x.args[0])
            if v is not None:
                st.append(x.args[1] if v else x.args[2])
                continue
            st += x.args[1:]
            continue
        st += x.args
        if x.op == "mu":
            st += [y for y in (U.mu_init[x.uid], U.mu_next.get(x.uid)) if y is not None]
    return ext


def uses(U, pc, val, t):
    """Under pc the returned value still holds the term t (loops are followed)."""
    st, seen = list(flat_values(val)), set()
    while st:
        x = st.pop()
        if x is t:
            return True
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "gamma":
            v = pc.eval(x.args[0])
            if v is not None:
                st.append(x.args[1] if v else x.args[2])
                continue
            st += x.args[1:]
            continue
        st += x.args
        if x.op == "mu":
            st += [y for y in (U.mu_init[x.uid], U.mu_next.get(x.uid)) if y is not None]
    return False


def options(pc, t, pol):
    """Ways of meeting an unresolved disjunctive fact, or None when it holds already."""
    ev = [pc.eval(x) for x in t.args]
    if t.op == "or" and pol:
        return None if any(v is True for v in ev) else [(x, True) for x, v in zip(t.args, ev) if v is None]
    if t.op == "and" and not pol:
        return None if any(v is False for v in ev) else [(x, False) for x, v in zip(t.args, ev) if v is None]
    return None


def split(U, pc, good, depth=1):
    """(leaves where good holds, leaves where it does not) of a path condition; disjunctions are opened only as needed."""
    if good(pc):
        return [pc], []
    best = None
    if depth:
        for t, pol in pc.ors:
            o = options(pc, t, pol)
            if o is None or not any(direct(U, x)[0] & TOLS or x.op in ("eq", "and", "or", "not", "exit") for x, p in o):
                continue
            yes, no = [], []
            for x, p in o:
                c = pc.assume(x, p)
                if c is not None:
                    a, b = split(U, c, good, depth - 1)
                    yes += a
                    no += b
            if not no:
                return yes, []
            if best is None or len(no) < len(best[1]):
                best = yes, no
    return best or ([], [pc])


def alternatives(U, pc, depth=2):
    if depth == 0:
        return [pc]
    for t, pol in pc.ors:
        o = options(pc, t, pol)
        if o is not None:
            out = []
            for x, p in o:
                c = pc.assume(x, p)
                if c is not None:
                    out += alternatives(U, c, depth - 1)
            return out
    return [pc]


def finder(U, name, tag, t, pc, flag, val):
    conv = [x for x in U.terms if x.op == flag and x.args and x.args[0] is t]
    label = "%s in %s, %s" % (t.op, t.site[2] if t.site else "?", tag)
    if conv and not any(pc.eval(c) is True for c in conv):
        c = pc.assume(conv[0], False)
        if c is not None and any(x is not None and uses(U, x, val, t) for x in alternatives(U, c)):
            return Rec("bad", "C03.finder", name, label, "the result of a root finder that did not converge can be returned", t.site)
    return Rec("ok", "C03.finder", name, label, site=t.site)
