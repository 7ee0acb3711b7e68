"""C15 - failures are ValueError or RuntimeError, nothing else."""
from ..run import *
from ..interp import exc_isa
from .C04 import Lin

RULES = {
    "C15.kind": "every raise, assert, library failure, unbound variable, arity or unpacking error reachable on valid input is "
                "a ValueError or a RuntimeError",
    "C15.divisor": "the divisor of the time per iteration is provably non-zero",
    "C15.helper": "no path through a helper function reads an unassigned variable or calls with the wrong number of arguments",
}
EXPLANATION = ("Every solver is interpreted for every combination of M (0, symbolic >=1), sense, path and full_output; "
               "each feasible path that ends in an exception is recorded with its class, including definite-assignment, "
               "call-arity and tuple-unpacking failures; feasibility is decided by literal propagation and intervals.")
ASSUMPTIONS = ["inputs are valid", "floating-point arithmetic itself does not raise (numba ZeroDivisionError at points of measure "
               "zero is out of reach)"]
FLOOR = 100
FLOOR_UNITS = 10


def units(root, tier):
    I = Interp(root)
    us = [("solver", n) for n in solver_names(I)]
    us += [("module", m) for m in sorted(I.modules) if m != "lamberthub"]
    return us


def run_unit(u, root, tier):
    kind, name = u
    I = Interp(root)
    U = I.U
    out = []
    if kind == "module":
        return module_unit(I, name)
    f = underlying(find_solver(I, name))
    here = (f.module.rel, f.node.lineno, f.name)
    for M in (0, "pos"):
        for p in (True, False):
            for l in (True, False):
                for fo in (True, False):
                    r = SolverRun(root, name, I=I, M=M, prog=p, low=l, fo=fo)
                    tag = "M=%s prograde=%s low=%s full_output=%s" % (M, p, l, fo)
                    bad = [x for x in r.raises if not (exc_isa(x.exc, "ValueError") or exc_isa(x.exc, "RuntimeError"))]
                    for x in bad:
                        out.append(Rec("bad", "C15.kind", name, "%s %s in %s" % (x.why, x.exc, x.site[2]),
                                       "can fail with %s (%s) on valid input" % (x.exc, x.msg or x.why), x.site))
                    if not bad:
                        out.append(Rec("ok", "C15.kind", name, "%s: %d failing paths" % (tag, len(r.raises)), site=here))
                    if fo and r.returned and r.elems() and len(r.elems()) == 4 and isinstance(r.elems()[3], T):
                        out.append(divisor(U, name, tag, r.elems()[3], r.pc, here))
    return out


def divisor(U, name, tag, t, pc, here):
    """Every division in the time per iteration, under the branch conditions that guard it."""
    st, seen = [(t, pc)], set()
    verdict = Rec("ok", "C15.divisor", name, tag, site=here)
    while st:
        x, c = st.pop()
        if (x.uid, id(c)) in seen or len(seen) > 4000:
            continue
        seen.add((x.uid, id(c)))
        if x.op == "gamma":
            a, b = c.assume(x.args[0], True), c.assume(x.args[0], False)
            if a is not None:
                st.append((x.args[1], a))
            if b is not None:
                st.append((x.args[2], b))
            continue
        if x.op == "div":
            d = x.args[1]
            if d.op != "const":
                v = nonzero(U, d, c)
                if v is False:
                    return Rec("bad", "C15.divisor", name, tag, "time per iteration divides by a count that can be zero: %s" % show(d, 3), x.site or here)
                if v is None:
                    verdict = Rec("und", "C15.divisor", name, tag, "divisor %s not bounded" % show(d, 2))
        st += [(y, c) for y in x.args if y.op in ("gamma", "div", "mul", "sub", "add")]
    return verdict


def nonzero(U, d, pc):
    d0 = d
    if d.op == "gamma":
        res = True
        for p, b in ((True, d.args[1]), (False, d.args[2])):
            c = pc.assume(d.args[0], p)
            if c is None:
                continue
            v = nonzero(U, b, c)
            if v is False:
                # excluded by an explicit test of the whole count?
                if pc.eval(U.mk("eq", (d0, U.const(0)), kind="bool")) is False:
                    continue
                return False
            if v is None:
                res = None
        return res
    if d.rng.nonzero():
        return True
    e = pc.eval(U.mk("eq", (d, U.const(0)), kind="bool"))
    if e is False:
        return True
    if U.isnum(d):
        return d.val != 0
    if d.op == "brentq_iterations":
        return True
    if d.op in ("iv",):
        return False if d.rng.lo <= 0 else True
    f = Lin(U)(d)
    ks = [k for k in f if k != 1]
    if ks and all(isinstance(k, tuple) and k[0] == "k" and f[k] > 0 for k in ks):
        return f.get(1, 0) > 0  # passes are counted from zero, and the first one may end the search
    if d.op == "add" and all(nonzero(U, x, pc) and (x.rng.nonneg() or x.op == "brentq_iterations") for x in d.args):
        return True
    return None


def module_unit(I, name):
    U = I.U
    out = []
    m = I.modules[name]
    env = I.module_env(m)
    pub = {underlying(f).node for f in public_functions(I).values()}
    for fn, f in sorted(env.items()):
        if not isinstance(f, PyFunc) or f.module is not m or f.node in pub:
            continue
        kw = {p: U.input(p, "vec" if p in ("r1", "r2", "vector", "v1", "v2") else "any") for p in params_of(f)}
        here = (m.rel, f.node.lineno, f.name)
        try:
            r = run_call(I, f, [], kw)
        except AnalysisError:
            continue
        bad = [x for x in r.raises if x.why in ("unbound", "arity")]
        for x in bad:
            out.append(Rec("bad", "C15.helper", name, "%s in %s" % (x.why, x.site[2]), "%s: %s" % (x.exc, x.msg or x.why), x.site))
        if not bad:
            out.append(Rec("ok", "C15.helper", name, fn, site=here))
    return out
