"""C08 - change of units: every solver is dimensionally homogeneous."""
from fractions import Fraction

from ..run import *
from ..interp import PyDict

RULES = {
    "C08.homogeneous": "sums, comparisons, selections, loop recurrences and arguments of transcendental functions are homogeneous when mu is L^3/T^2, positions are L and "
                       "the time of flight is T (zero, infinity and the caller's tolerances fit any unit, every other literal is a pure number)",
    "C08.velocity": "both returned velocities have the unit L/T",
}
EXPLANATION = ("Units (powers of length and time) are inferred by unification for every term of the value graph of each solver (results, branch conditions, "
               "conditions of raises, loop recurrences); a conflict is reported at the term where it appears.")
ASSUMPTIONS = ["inputs are valid", "comparisons with atol/rtol are outside the property", "floating-point range effects (overflow, underflow) are not modelled"]
FLOOR = 40
FLOOR_UNITS = 10


def units(root, tier):
    return solver_names(Interp(root))


def run_unit(name, root, tier):
    out = []
    for M in (0, "pos"):
        for prog in (True, False):
            for low in (True, False):
                I = Interp(root)
                r = SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=False)
                if not r.returned:
                    continue
                out += one(r, name, "M=%s prograde=%s low=%s" % (M, prog, low))
    return out


class Conflict(Exception):
    pass


INPUTS = {"mu": (3, -2), "r1": (1, 0), "r2": (1, 0), "tof": (0, 1)}
TOLS = {"atol", "rtol"}
PURE = {"sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arccosh", "arctanh", "exp", "gammafn",
        "floor", "ceil", "mod", "round", "rint", "expm1", "log1p", "deg2rad", "rad2deg", "factorial"}
SAME = {"abs", "neg", "norm", "comp", "view", "real", "imag", "complex", "copy", "float", "int", "conj", "sum", "mean", "item", "elem", "flip", "max", "min",
        "add", "sub", "maximum", "minimum", "clip", "array", "store", "hypot", "toint", "astype", "round_to"}
BOOL = {"lt", "eq", "veq", "veq0", "and", "or", "not", "all", "any", "isfinite", "isnan", "exit", "nonempty", "is", "brentq_conv", "brentq_bracket",
        "min_success", "isinf", "isclose"}


class Units:
    """Dimensions are linear forms {var or 'L'/'T': power}; variables are solved by elimination."""

    def __init__(self, U):
        self.U, self.memo, self.sub, self.n = U, {}, {}, 0
        self.roots = {}
        self.errors = []
        self.checked = 0
        self.work = []
        self.unknown = set()

    def var(self):
        self.n += 1
        return {"v%d" % self.n: Fraction(1)}

    def norm(self, d):
        while True:
            for k in d:
                if k in self.sub:
                    c = d[k]
                    d = lin(d, {k: Fraction(1)}, -c)
                    d = lin(d, self.sub[k], c)
                    break
            else:
                return d

    def unify(self, a, b, t):
        self.checked += 1
        d = self.norm(lin(a, b, -1))
        if not d:
            return
        vs = [k for k in d if k not in ("L", "T")]
        if not vs:
            raise Conflict(t)
        v = max(vs, key=lambda s: int(s[1:]))
        c = d[v]
        self.sub[v] = {k: -x / c for k, x in d.items() if k != v}

    def tryu(self, a, b, t, what):
        try:
            self.unify(a, b, t)
        except Conflict:
            self.errors.append((t, what, self.norm(a), self.norm(b)))

    def free(self, t):
        """Fits any unit: zero, infinity, not-a-number and the caller's tolerances."""
        if t.op == "const":
            return isinstance(t.val, Fraction) and t.val == 0
        if t.op in ("inf", "nan"):
            return True
        if t.op in ("complex", "neg", "array", "zeros", "empty"):
            return all(self.free(a) for a in t.args)
        return t.op == "input" and t.val in TOLS

    def dim(self, t):
        if self.free(t):
            return self.var()
        if t.op == "const":
            return {}
        d = self.memo.get(t.uid)
        if d is None:
            st = [t]
            while st:
                x = st[-1]
                if x.uid in self.memo:
                    st.pop()
                    continue
                todo = [a for a in x.args if a.uid not in self.memo and a.op != "const" and not self.free(a)]
                if todo:
                    st += todo
                    continue
                self.memo[x.uid] = self._dim(x)
                st.pop()
            d = self.memo[t.uid]
        return d

    def _dim(self, t):
        U = self.U
        op = t.op
        A = t.args
        if op == "sub" and A[0].op == A[1].op == "log":
            self.dim(A[0]), self.dim(A[1])
            self.tryu(self.dim(A[0].args[0]), self.dim(A[1].args[0]), t, "a difference of logarithms of quantities with different units")
            return {}
        for a in A:
            if a.op == "log":
                self.dim(a)
                self.tryu(self.dim(a.args[0]), {}, a, "the argument of log is not a pure number")
        if op == "log":
            self.dim(A[0])
            return {}
        if op == "input":
            if t.val in INPUTS:
                l, s = INPUTS[t.val]
                return {k: Fraction(v) for k, v in (("L", l), ("T", s)) if v}
            return {}
        if op in ("pi", "ext", "nonempty"):
            return {}
        if op == "iv":
            self.work.append(t)
            return {}
        if op == "mu":
            d = self.var()
            self.work.append(t)
            return d
        if op == "mul" or op == "cross" or op == "dot":
            d = {}
            for a in A:
                d = lin(d, self.dim(a))
            return d
        if op == "div":
            return lin(self.dim(A[0]), self.dim(A[1]), -1)
        if op == "sqrt":
            return {k: v / 2 for k, v in self.dim(A[0]).items()}
        if op == "cbrt":
            return {k: v / 3 for k, v in self.dim(A[0]).items()}
        if op == "pow":
            e = A[1]
            if U.isnum(e):
                return {k: v * e.val for k, v in self.dim(A[0]).items()}
            self.tryu(self.dim(A[0]), {}, t, "the base of a power with a variable exponent is not a pure number")
            self.tryu(self.dim(e), {}, t, "the exponent of a power is not a pure number")
            return {}
        if op in PURE:
            if op == "mod":
                d = self.dim(A[0])
                self.tryu(d, self.dim(A[1]), t, "a remainder of quantities with different units")
                return d
            for a in A:
                self.tryu(self.dim(a), {}, t, "the argument of %s is not a pure number" % op)
            return {}
        if op in ("arctan2",):
            self.tryu(self.dim(A[0]), self.dim(A[1]), t, "arctan2 of quantities with different units")
            return {}
        if op == "copysign":
            return self.dim(A[0])
        if op == "sign":
            return {}
        if op == "gamma":
            self.dim(A[0])
            d = self.dim(A[1])
            if t.kind in ("real", "int", "vec", "complex", "arr"):
                self.tryu(d, self.dim(A[2]), t, "a choice between quantities with different units")
            return d
        if op in ("lt", "eq", "veq"):
            if all(x.kind in ("real", "int", "vec", "arr", "complex") for x in A):
                self.tryu(self.dim(A[0]), self.dim(A[1]), t, "a comparison of quantities with different units")
            return {}
        if op in BOOL or t.kind in ("bool", "none", "str"):
            for a in A:
                self.dim(a)
            if op == "exit":
                self.work.append(t)
            return {}
        if op == "comp":
            return self.dim(A[0])
        if op == "store":
            d = self.dim(A[0])
            self.tryu(d, self.dim(A[-1]), t, "an array gets elements with different units")
            return d
        if op in SAME:
            d = self.dim(A[0]) if A else self.var()
            for a in A[1:]:
                self.tryu(d, self.dim(a), t, {"add": "a sum", "sub": "a difference"}.get(op, "a combination (%s)" % op) +
                          " of quantities with different units")
            return d
        if op == "rootvar":
            return self.roots.setdefault(t.val, self.var())
        if op in ("brentq", "minimizer"):
            site = t.val[1] if op == "brentq" else t.val
            d = self.roots.setdefault(site, self.var())
            if op == "brentq":
                for a in A[:2]:
                    if a.kind in ("real", "int"):
                        self.tryu(d, self.dim(a), t, "the bracket of a root finder does not fit its variable")
            for a in A:
                self.dim(a)
            return d
        if op in ("brentq_iterations", "brentq_function_calls", "min_nit", "min_nfev"):
            return {}
        if op in ("linspace", "arange", "len", "pack", "opaque", "minval"):
            return self.var()
        self.unknown.add(op)
        for a in A:
            self.dim(a)
        return self.var()

    def run(self, roots):
        U = self.U
        for t in roots:
            self.dim(t)
        while self.work:
            t = self.work.pop()
            if t.op == "iv":
                for b in U.loops[t.val].bounds:
                    self.dim(b)
                for c in U.loops[t.val].conds:
                    self.dim(c)
            elif t.op == "mu":
                d = self.memo[t.uid]
                for x, w in ((U.mu_init.get(t.uid), "initial"), (U.mu_next.get(t.uid), "next")):
                    if x is not None and x.kind in ("real", "int", "vec", "complex", "arr", "any"):
                        self.tryu(d, self.dim(x), x, "the %s value of a loop variable has another unit" % w)
                for c in U.loops[U.mu_loop[t.uid]].conds:
                    self.dim(c)
            else:
                for c in U.exit_conds.get(t.uid, ()):
                    self.dim(c)


def lin(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def name_unit(d):
    return " ".join("%s^%s" % (k, v) for k, v in sorted(d.items())) or "pure number"


def one(r, name, tag):
    U = r.U
    un = Units(U)
    out = []
    roots = []
    for st, val in r.rets:
        roots += list(flat_values(val)) + [U.terms[u] for u in st.pc.lits]
    for x in r.raises:
        pc = getattr(x, "pc", None)
        if pc is not None:
            roots += [U.terms[u] for u in pc.lits]
    un.run([t for t in roots if isinstance(t, T)])
    seen = set()
    for t, what, a, b in un.errors:
        site = t.site
        k = (site, what)
        if k in seen:
            continue
        seen.add(k)
        out.append(Rec("bad", "C08.homogeneous", name, "%s in %s, %s" % (t.op, site[2] if site else "?", tag),
                       "%s (%s / %s): %s" % (what, name_unit(a), name_unit(b), show(t, 3)[:160]), site))
    if not un.errors:
        out.append(Rec("ok", "C08.homogeneous", name, "%d equations over %d terms, %s" % (un.checked, len(un.memo), tag), site=(
            underlying(r.f).module.rel, underlying(r.f).node.lineno, underlying(r.f).name)))
    for i, (st, val) in enumerate(r.rets):
        if not isinstance(val, PyTuple) or len(val.elems) < 2:
            continue
        for j in (0, 1):
            for t in flat_values(val.elems[j]):
                d = un.norm(un.dim(t))
                if d == {"L": 1, "T": -1}:
                    out.append(Rec("ok", "C08.velocity", name, "v%d of return %d, %s" % (j + 1, i, tag), site=t.site))
                elif any(k not in ("L", "T") for k in d):
                    out.append(Rec("und", "C08.velocity", name, "v%d of return %d, %s" % (j + 1, i, tag), "unit not determined (%s)" % name_unit(d), t.site))
                elif not un.errors:
                    out.append(Rec("bad", "C08.velocity", name, "v%d of return %d, %s" % (j + 1, i, tag), "the unit of the velocity is %s" % name_unit(d), t.site))
    if un.unknown:
        out.append(Rec("und", "C08.homogeneous", name, tag, "operations without a unit rule: %s" % ", ".join(sorted(un.unknown))))
    return out
