"""C04 - the iteration budget is respected and the reported count is truthful."""
from fractions import Fraction

from ..run import *
from . import C03

RULES = {
    "C04.bound": "every loop limited by maxiter, and every loop the reported count is taken from, makes at most maxiter passes, "
                 "and maxiter is that limit",
    "C04.finder": "every root finder that ends a search (its root is not merely the start of a search loop) gets the caller's maxiter as its limit",
    "C04.count": "the reported number of iterations equals the number of passes of the search loop(s) behind the returned velocities "
                 "(maxiter when a fall-back root finder finished the search, its own count when it was the only search, a constant of at most "
                 "one for a closed form)",
}
EXPLANATION = ("Each solver is interpreted with full_output=True per flag combination; loop bounds and counters are brought into "
               "linear form in the pass number; the reported count is matched with the loops the velocities depend on, branch by branch.")
ASSUMPTIONS = ["inputs are valid", "maxiter is a positive integer"]
FLOOR = 40
FLOOR_UNITS = 10


def units(root, tier):
    return solver_names(Interp(root))


def run_unit(name, root, tier):
    out = []
    for M in (0, "pos"):
        for prog in (True, False):
            for low in (True, False):
                I = Interp(root)
                r = SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=True)
                if not r.returned:
                    continue
                out += one(r, name, "M=%s prograde=%s low=%s" % (M, prog, low))
    return out


class Lin:
    """Linear forms over pass numbers ('k', loop), maxiter and opaque atoms."""

    def __init__(self, U):
        self.U, self.memo, self.busy = U, {}, set()

    def __call__(self, t):
        r = self.memo.get(t.uid)
        if r is None:
            r = self._lin(t)
            self.memo[t.uid] = r
        return r

    def atom(self, t):
        return {("t", t.uid): Fraction(1)}

    def _lin(self, t):
        U = self.U
        if U.isnum(t):
            return {1: Fraction(t.val)} if t.val else {}
        if t.op == "input":
            return {t.val: Fraction(1)}
        if t.op in ("add", "sub"):
            r = dict(self(t.args[0]))
            for x in t.args[1:]:
                r = comb(r, self(x), 1 if t.op == "add" else -1)
            return r
        if t.op == "neg":
            return comb({}, self(t.args[0]), -1)
        if t.op in ("int", "float", "copy", "toint", "cast") and t.args:
            return self(t.args[0])
        if t.op == "mul" and len(t.args) == 2:
            a, b = self(t.args[0]), self(t.args[1])
            for x, y in ((a, b), (b, a)):
                if not x or set(x) == {1}:
                    return {k: v * x.get(1, 0) for k, v in y.items() if v * x.get(1, 0)}
        if t.op == "iv":
            b = [self(x) for x in U.loops[t.val].bounds]
            lo, step = ({}, {1: Fraction(1)}) if len(b) == 1 else (b[0], b[2] if len(b) > 2 else {1: Fraction(1)})
            if set(step) == {1}:
                return comb(lo, {("k", t.val): step[1]})
        if t.op == "mu":
            n = U.mu_next.get(t.uid)
            if n is not None and t.uid not in self.busy:
                self.busy.add(t.uid)
                a = self.atom(t)
                self.memo[t.uid] = a
                d = comb(self(n), a, -1)
                init = self(U.mu_init[t.uid])
                self.busy.discard(t.uid)
                # forget what was built on the provisional atom
                self.memo = {k: v for k, v in self.memo.items() if ("t", t.uid) not in v}
                if set(d) <= {1} and d:
                    return comb(init, {("k", U.mu_loop[t.uid]): d[1]})
        return self.atom(t)


def comb(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


ONE = {1: Fraction(1)}
MAXITER = {"maxiter": Fraction(1)}


def trips(U, lin, L):
    """Number of passes at most made, as a linear form, or None."""
    if L.kind == "for" and L.bounds:
        b = [lin(x) for x in L.bounds]
        if len(b) == 1:
            return b[0]
        step = b[2] if len(b) > 2 else ONE
        if step == ONE:
            return comb(b[1], b[0], -1)
        if step == {1: Fraction(-1)}:
            return comb(b[0], b[1], -1)
        return None
    best = None
    cands = []
    h = getattr(L, "header_cond", None)
    if h is not None:
        cands += [(x, True, 0) for x in (h.args if h.op == "and" else [h])]
    k = ("k", L.id)
    # a literal  a*k + c < maxiter-form  needed for another pass
    for t, pol, _ in cands:
        while t.op == "not":
            t, pol = t.args[0], not pol
        if t.op != "lt":
            continue
        d = comb(lin(t.args[1]), lin(t.args[0]), -1)  # > 0 when t holds
        if not pol:
            d = comb(comb({}, d, -1), ONE)  # b - a <= 0  ->  a - b + 1 > 0 on integers
        if d.get(k) == -1:
            # rest - k > 0 : passes made = rest
            rest = {a: v for a, v in d.items() if a != k}
            if "maxiter" in rest or set(rest) <= {1}:
                best = rest
    return best


def _converges(U, L):
    """The loop is left by a test against the caller's tolerances: it is a search."""
    for tag, e in L.exits:
        for c, p in U.exit_conds_lits.get(e.uid, ()):
            if isinstance(c, T) and C03.direct(U, c)[0] & C03.TOLS:
                return True
    return False


def show_lin(U, f):
    s = []
    for k, v in sorted(f.items(), key=str):
        n = "1" if k == 1 else k if isinstance(k, str) else "pass" if k[0] == "k" else show(U.terms[k[1]], 3)
        s.append(("%s*%s" % (v, n)) if v != 1 or k == 1 else n)
    return " + ".join(s) or "0"


def one(r, name, tag):
    U = r.U
    lin = Lin(U)
    out = []
    loops = {lid: L for lid, L in U.loops.items() if L.__dict__.get("done")}
    lim = {lid for lid, L in loops.items() if C03.limited(U, L)}
    conv = {lid for lid, L in loops.items() if _converges(U, L)}
    nested = {lid for lid in lim if any(p in lim for p in loops[lid].parents)}
    search = {lid for lid in lim if lid not in nested}
    for st, val in r.rets:
        sv = struct(val)
        for pc, leaf in leaves(U, st.pc, sv[1]) if sv else ():
            search |= {k[1] for k in lin(leaf) if isinstance(k, tuple) and k[0] == "k"}
    for lid in sorted(search | conv | lim, key=str):
        L = loops[lid]
        n = trips(U, lin, L)
        con = "%s, %s" % (L.site[2], tag)
        if n is None:
            if C03.limited(U, L):
                out.append(Rec("und", "C04.bound", name, con, "the bound of the loop at line %s is not in linear form" % L.site[1], L.site))
            else:
                out.append(Rec("bad", "C04.bound", name, con, "the search loop at line %s is not limited by maxiter" % L.site[1], L.site))
        elif n == MAXITER:
            out.append(Rec("ok", "C04.bound", name, con, site=L.site))
        else:
            c = "limit %s" % show_lin(U, n)
            out.append(Rec("bad", "C04.bound", name, c, "the loop at line %s makes up to %s passes instead of maxiter [%s]" % (
                L.site[1], show_lin(U, n), tag), L.site))
    for st, val in r.rets:
        vs = list(flat_values(val))
        fin = sources(U, st.pc, vs[:2], search)[0]
        for t in reach(vs, U=U).values():
            if t.op == "brentq":
                if t not in fin:
                    continue  # only a starting value
                mi = t.args[-1]
                con = "%s in %s, %s" % (t.val[0], t.site[2] if t.site else "?", tag)
                site = t.site
                if lin(mi) == MAXITER:
                    out.append(Rec("ok", "C04.finder", name, con, site=site))
                else:
                    out.append(Rec("bad", "C04.finder", name, con, "the root finder is limited to %s iterations, not to maxiter" % show(mi, 3), site))
        sv = struct(val)
        if sv is None:
            out.append(Rec("und", "C04.count", name, tag, "the result has no count"))
            continue
        vel, cnt = sv
        for pc, leaf in leaves(U, st.pc, cnt):
            out.append(count(U, lin, pc, leaf, vel, search, loops, name, tag))
    return out


def struct(val):
    if isinstance(val, PyTuple) and len(val.elems) == 4 and isinstance(val.elems[2], T):
        return list(flat_values(val.elems[0])) + list(flat_values(val.elems[1])), val.elems[2]
    return None


def lowest(U, t):
    """A lower bound of a count: pass counters start at a constant and grow."""
    if U.isnum(t):
        return t.val
    if t.op == "mu":
        n, i = U.mu_next.get(t.uid), U.mu_init.get(t.uid)
        if i is not None and U.isnum(i) and isinstance(n, T) and n.op == "add" and any(a is t for a in n.args) and all(a is t or U.isnum(a) and a.val > 0 for a in n.args):
            return i.val
        return None
    if t.op == "add":
        a = [lowest(U, x) for x in t.args]
        return None if None in a else sum(a)
    if t.rng.lo is not None and t.rng.lo >= 0:
        return t.rng.lo
    return None


def leaves(U, pc, t):
    """(path condition, leaf) of a term over its unresolved choices."""
    if t.op in ("int", "copy") and t.args:
        yield from leaves(U, pc, t.args[0])
        return
    if t.op == "gamma":
        v = pc.eval(t.args[0])
        c = t.args[0]
        if v is None and c.op == "lt" and U.isnum(c.args[1]) and (lowest(U, c.args[0]) or -1) >= c.args[1].val:
            v = False
        if v is None and c.op == "lt" and U.isnum(c.args[0]) and (lowest(U, c.args[1]) or -1) > c.args[0].val:
            v = True
        for b, x in ((True, t.args[1]), (False, t.args[2])):
            if v is None or v is b:
                c = pc.assume(t.args[0], b)
                if c is not None:
                    yield from leaves(U, c, x)
        return
    if t.op in ("add", "sub") and any(x.op == "gamma" for x in t.args):
        for i, x in enumerate(t.args):
            if x.op == "gamma":
                for c, y in leaves(U, pc, x):
                    a = list(t.args)
                    a[i] = y
                    yield from leaves(U, c, U.mk(t.op, a, kind=t.kind))
                return
    yield pc, t


def sources(U, pc, vel, search):
    """Search loops and root finders the velocities depend on: (directly, at all)."""
    direct, every, st, seen = set(), set(), [(x, True) for x in vel], {}
    while st:
        x, d = st.pop()
        if seen.get(x.uid, -1) >= d:
            continue
        seen[x.uid] = d
        if x.op in ("brentq", "minimizer"):
            every.add(x)
            if d:
                direct.add(x)
            st += [(y, False) for y in x.args]
            continue
        if x.op in ("mu", "iv"):
            lid = U.mu_loop[x.uid] if x.op == "mu" else x.val
            if lid in search:
                every.add(lid)
                if d:
                    direct.add(lid)
                dd = False
            else:
                dd = d
            if x.op == "mu":
                st.append((U.mu_init[x.uid], dd))
                n = U.mu_next.get(x.uid)
                if n is not None:
                    st.append((n, dd))
            continue
        if x.op == "gamma":
            v = pc.eval(x.args[0])
            st += [(y, d) for y in ([x.args[1] if v else x.args[2]] if v is not None else x.args[1:])]
            continue
        if x.op in ("elem", "summary") and isinstance(x.val, tuple):
            for y in C03.flatten(x.val):
                if y in search:
                    every.add(y)
                    if d:
                        direct.add(y)
        st += [(y, d) for y in x.args]
    return direct, every


def count(U, lin, pc, leaf, vel, search, loops, name, tag):
    direct, every = sources(U, pc, vel, search)
    dl = {x for x in direct if not isinstance(x, T)}
    df = {x for x in direct if isinstance(x, T)}
    f = lin(leaf)
    site = leaf.site if leaf.op != "input" else None
    names = lambda ls: ", ".join(sorted("%s:%s" % (loops[x].site[2], loops[x].site[1]) for x in ls)) or "no loop"
    con = "%s from %s, %s" % (short(leaf), names(dl), tag)
    ok = lambda: Rec("ok", "C04.count", name, con, site=site)
    bad = lambda m: Rec("bad", "C04.count", name, con, m, site or (loops[sorted(dl, key=str)[0]].site if dl else None))
    if leaf.op.startswith("brentq_iter"):
        if leaf.args[0] in every:
            return ok()
        return bad("the count comes from a root finder the velocities do not depend on")
    if leaf.op == "mu" and ("t", leaf.uid) in f or any(isinstance(k, tuple) and k[0] == "t" for k in f):
        # trip count of a loop that always runs to its end
        if any(trips(U, lin, loops[x]) == f and [t for t, _ in loops[x].exits] == ["end"] for x in dl):
            return ok()
        return Rec("und", "C04.count", name, con, "count %s not in linear form" % show(leaf, 4)[:80], site)
    ks = {k[1] for k in f if isinstance(k, tuple)}
    if not ks:
        if set(f) <= {1}:
            c = f.get(1, 0)
            if dl:
                return bad("the count is the constant %s although the velocities come from a search loop" % c)
            if c in (0, 1):
                return ok()
            return bad("the count is the constant %s" % c)
        if f == MAXITER:
            if df or not dl:
                return ok() if df else bad("maxiter is reported although no search finished the problem")
            # every pass made
            if all(any(t == "end" and pc.eval(e) is not False for t, e in loops[x].exits) for x in dl):
                return ok()
            return bad("maxiter is reported instead of the number of passes")
        return bad("the count is %s" % show_lin(U, f))
    if not ks <= every:
        return bad("the count comes from a loop (%s) the velocities do not depend on" % names(ks - every))
    sites = {loops[k].site for k in ks}
    # (two searches by the same routine, one per solution: the count of one of them)
    if not all(loops[x].site in sites for x in dl) and not df:
        return bad("the count leaves out the search loop behind the velocities (%s)" % names(dl - ks))
    want = {}
    for k in ks:
        L = loops[k]
        live = [t for t, e in L.exits if pc.eval(e) is not False]
        inbody = L.kind == "for" or any(t != "end" for t in live)
        if L.kind != "for" and "end" in live and any(t != "end" for t in live):
            return Rec("und", "C04.count", name, con, "two ways out of a while loop are joined", site)
        want = comb(want, {("k", k): Fraction(1)})
        if inbody:
            want = comb(want, ONE)
    if f == want:
        return ok()
    return bad("the count is %s, the number of passes is %s" % (show_lin(U, f), show_lin(U, want)))


def short(t):
    return t.op if t.op != "const" else "const %s" % t.val
