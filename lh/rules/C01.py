"""C01 - input validation."""
import math
from fractions import Fraction

from ..run import *

RULES = {
    "C01.reject": "for every class of invalid input, with every other argument arbitrary, no path through the solver "
                  "returns and every path that ends, ends in ValueError",
    "C01.accept": "on valid input no path raises because of the value of a single physical argument "
                  "(by change of units no single argument can make a transfer infeasible)",
}
EXPLANATION = ("Whole-program abstract interpretation of every solver (all repository calls inlined) under each class "
               "of invalid input with symbolic flags; the set of reachable outcomes is compared with {ValueError}. "
               "On valid input, the path condition of every reachable raise is checked for literals that constrain "
               "one physical argument alone.")
ASSUMPTIONS = ["numpy/scipy calls behave as documented", "inputs are real scalars and float arrays"]
FLOOR = 60
FLOOR_UNITS = 10

NONFINITE = ["%s %s" % (a, v) for a in ["mu", "tof"] + ["r%d[%d]" % (j, i) for j in (1, 2) for i in range(3)] for v in ("nan", "inf")]
CLASSES = ["mu<=0", "tof<=0", "M<0", "r1 null", "r2 null", "r1 shape", "r2 shape", "r1==r2"]


def units(root, tier):
    return solver_names(Interp(root))


def _scenario(U, I, cls):
    over, M = {}, "nonneg"
    I.shapes, I.nonfinite, I.equal_pair = {}, {}, cls == "r1==r2"
    if cls in NONFINITE:
        a, v = cls.split()
        if a in ("mu", "tof"):
            over[a] = U.mk(v, (), kind="real")
        else:
            n = a + v
            a, i = a[:2], int(a[3])
            over[a] = U.input(n, "vec", None, True)
            I.nonfinite = {n: (v, i)}
    elif cls == "mu<=0":
        over["mu"] = U.input("mu-", "real", Rng(hi=0))
    elif cls == "tof<=0":
        over["tof"] = U.input("tof-", "real", Rng(hi=0))
    elif cls == "M<0":
        M = "neg"
    elif cls.endswith("null"):
        r = cls[:2]
        over[r] = I.mk_arr([U.const(0.0)] * 3)
    elif "shape" in cls:
        r, sh = cls[:2], cls.split("shape")[1].strip() or "2"
        n = r + "sh" + sh
        over[r] = U.input(n, "arr", None, False)
        I.shapes = {n: {"2": (2,), "4": (4,), "13": (1, 3), "31": (3, 1), "0": ()}[sh]}
    elif cls == "r1==r2":
        over["r2"] = U.input("r1", "vec", None, True)
    return over, M


def run_unit(name, root, tier):
    out = []
    I = Interp(root)
    U = I.U
    classes = list(CLASSES)
    classes += ["r1 shape 4", "r2 shape 4", "r1 shape 13", "r2 shape 13", "r1 shape 0", "r2 shape 0"]
    classes += NONFINITE
    flags = [("sym", "sym", "sym")]
    if tier == "thorough":
        flags += [(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)]
    for cls in classes:
        for prog, low, fo in flags:
            over, M = _scenario(U, I, cls)
            r = SolverRun(root, name, I=I, M=M, prog=prog, low=low, fo=fo, over=over)
            I.shapes, I.nonfinite, I.equal_pair = {}, {}, False
            c = cls if prog == "sym" else "%s %s/%s/%s" % (cls, prog, low, fo)
            f = underlying(r.f)
            site = (f.module.rel, f.node.lineno, f.name)
            if r.returned:
                out.append(Rec("bad", "C01.reject", name, c, "returns a result for invalid input (%s)" % cls, site))
                continue
            wrong = [x for x in r.raises if not _is_value_error(x.exc)]
            if wrong:
                out.append(Rec("bad", "C01.reject", name, c, "raises %s instead of ValueError for invalid input (%s)" % (
                    wrong[0].exc, cls), wrong[0].site))
            elif not r.raises:
                out.append(Rec("und", "C01.reject", name, c, "no outcome found"))
            else:
                out.append(Rec("ok", "C01.reject", name, c, site=r.raises[-1].site))
    # valid input is not turned away for one argument alone
    for M in (0, "pos"):
        r = SolverRun(root, name, I=I, M=M, prog="sym", low="sym", fo="sym")
        n = 0
        for x in r.raises:
            lit = _single(U, x.pc)
            if lit is None:
                continue
            t, pol, dep = lit
            w = _witness(t, pol, dep)
            if w == "?":
                out.append(Rec("und", "C01.accept", name, "%s at %s" % (x.exc, x.site[2]), "the condition is not decided: %s" % show(t), x.site))
            elif w:
                out.append(Rec("bad", "C01.accept", name, "%s at %s" % (x.exc, x.site[2]),
                               "rejects valid input because of %s: %s%s (true for %s)" % (
                                   " and ".join(sorted(dep & PHYS)) + " alone", "" if pol else "not ", show(t), w), x.site))
        out.append(Rec("ok", "C01.accept", name, "M=%s: %d raise sites" % (M, n)))
    return out


def _is_value_error(e):
    from ..interp import exc_isa
    return exc_isa(e, "ValueError")


def _single(U, pc):
    """The deciding literal, when it constrains one physical argument (or the two positions) alone."""
    if not pc.asserted:
        return None
    t, p = pc.asserted[-1]
    d = deps(U, [t])
    if d & PHYS and d <= PHYS | {"atol", "rtol"} and (len(d & PHYS) == 1 or d & PHYS == {"r1", "r2"}) and not _has_loop(U, t):
        return t, p, d
    return None


def _has_loop(U, t):
    return any(x.op in ("mu", "iv", "exit", "brentq", "opaque") for x in reach([t]).values())


def _vecs():
    """Valid positions of very different size and structure (zeros, equal components, vanishing sums)."""
    pats = [(x, y, z) for x in (-1, 0, 1, 2) for y in (-1, 0, 1, 2) for z in (-1, 0, 1, 2) if (x, y, z) != (0, 0, 0)]
    return [tuple(k * c for c in v) for k in (1e-30, 1e-9, 1.0, 1e9, 1e30) for v in pats]


def _witness(t, pol, dep):
    """A valid input that makes the condition true; None: there is none among the witnesses; '?': the condition is not understood."""
    base = {"atol": 1e-5, "rtol": 1e-7}
    if "r1" in dep and "r2" in dep:
        vs = [v for v in _vecs() if max(map(abs, v)) <= 2]
        n = len(vs)
        envs = []
        for i in range(n):
            for s in (1, 7, 19, 40):
                a, b = vs[i], vs[(i + s) % n]
                c = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
                if _len(c) > 0.3 * _len(a) * _len(b):
                    envs.append({"r1": a, "r2": b})
    elif dep & {"r1", "r2"}:
        envs = [{r: v} for r in dep & {"r1", "r2"} for v in _vecs()]
    else:
        envs = [{k: 10.0 ** e} for k in dep & {"mu", "tof"} for e in range(-30, 31, 3)]
    unknown = 0
    for env in envs:
        try:
            v = Value(dict(base, **env)).ev(t)
        except Unknown:
            unknown += 1
            continue
        except (ArithmeticError, ValueError, TypeError, IndexError):
            continue
        if bool(v) == pol:
            return ", ".join("%s=%s" % (k, x) for k, x in env.items())
    return "?" if unknown == len(envs) else None


def _len(v):
    return math.sqrt(sum(x * x for x in v))


class Unknown(Exception):
    pass


class Value:
    """Value of a condition over the arguments (no loops, no calls): finite, elementary operations only."""

    def __init__(self, env):
        self.env, self.memo = env, {}

    def ev(self, t):
        if t.uid not in self.memo:
            self.memo[t.uid] = self._ev(t)
        return self.memo[t.uid]

    def _ev(self, t):
        op, A = t.op, t.args
        if op == "input":
            if t.val in self.env:
                return self.env[t.val]
            raise Unknown(t.val)
        if op == "const":
            if isinstance(t.val, Fraction):
                return float(t.val)
            return t.val
        if op == "inf":
            return math.inf
        if op == "pi":
            return math.pi
        if op == "gamma":
            return self.ev(A[1] if self.ev(A[0]) else A[2])
        if op == "and":
            return all(self.ev(x) for x in A)
        if op == "or":
            return any(self.ev(x) for x in A)
        xs = [self.ev(x) for x in A]
        f = OPS.get(op)
        if f is None:
            raise Unknown(op)
        return f(*xs)


def _ew(f):
    def g(*xs):
        n = max([len(x) for x in xs if isinstance(x, tuple)] or [0])
        if not n:
            return f(*xs)
        return tuple(f(*[x[i] if isinstance(x, tuple) else x for x in xs]) for i in range(n))
    return g


def _fold(f):
    def g(*xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return _ew(g)


OPS = {
    "add": _fold(lambda a, b: a + b), "sub": _fold(lambda a, b: a - b), "mul": _fold(lambda a, b: a * b),
    "div": _fold(lambda a, b: a / b), "neg": _ew(lambda a: -a), "abs": _ew(abs), "pow": _ew(lambda a, b: a ** b), "sqrt": _ew(math.sqrt),
    "norm": _len, "dot": lambda a, b: sum(x * y for x, y in zip(a, b)), "comp": lambda a, i: a[int(i)], "array": lambda *a: tuple(a),
    "cross": lambda a, b: (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]),
    "sum": sum, "prod": math.prod, "max": _fold(max), "min": _fold(min), "redmax": max, "redmin": min, "sign": _ew(lambda a: (a > 0) - (a < 0)),
    "lt": lambda a, b: a < b, "eq": lambda a, b: a == b, "not": lambda a: not a, "truth": lambda a: bool(a),
    "veq": _ew(lambda a, b: a == b), "veq0": _ew(lambda a: a == 0), "vlt": _ew(lambda a, b: a < b), "vle": _ew(lambda a, b: a <= b),
    "vnot": _ew(lambda a: not a), "vand": _ew(lambda a, b: a and b), "vor": _ew(lambda a, b: a or b), "allbool": lambda a: a,
    "visclose": _ew(lambda a, b, r, t: abs(a - b) <= t + r * abs(b)),
    "all": lambda a: all(a) if isinstance(a, tuple) else bool(a), "any": lambda a: any(a) if isinstance(a, tuple) else bool(a),
    "isfinite": _ew(math.isfinite), "isnan": _ew(math.isnan), "isinf": _ew(math.isinf), "cos": _ew(math.cos), "sin": _ew(math.sin),
    "arccos": _ew(lambda a: math.acos(max(-1.0, min(1.0, a)))), "arctan2": math.atan2, "log": _ew(math.log), "log10": _ew(math.log10),
    "exp": _ew(math.exp), "float": float, "copy": lambda a: a, "view": lambda a: a, "asarray": lambda a: a,
}
PHYS = {"mu", "r1", "r2", "tof"}
