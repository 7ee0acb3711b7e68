"""C05 - one interface: same parameters, same defaults, same shape of result."""
from .. import point
from ..run import *
from ..interp import exc_isa
import ast

RULES = {
    "C05.params": "parameter names and order are those of the common interface",
    "C05.defaults": "the optional parameters default to M=0, prograde, low path, no full output, positive maxiter/atol/rtol; "
                    "a call with the four required arguments means the same as spelling those defaults out",
    "C05.shape": "every returning path yields (v1, v2) without full_output and (v1, v2, iterations, seconds) with it, "
                 "v1 and v2 being three-component vectors",
    "C05.order": "the first velocity is the one at the initial, the second the one at the final position (not refuted only when swapped)",
}
EXPLANATION = ("Signatures are read from the resolved function objects; every solver is interpreted with full_output on "
               "and off for M=0 and M>=1 and the structure and kind of every returned value is derived by type "
               "propagation over the value graph.")
ASSUMPTIONS = ["inputs are valid"]
FLOOR = 60
FLOOR_UNITS = 10
WANT = {"M": 0, "is_prograde": True, "is_low_path": True, "full_output": False}


def units(root, tier):
    return solver_names(Interp(root))


def run_unit(name, root, tier):
    I = Interp(root)
    U = I.U
    out = []
    f0 = find_solver(I, name)
    f = underlying(f0)
    here = (f.module.rel, f.node.lineno, f.name)
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    kwonly = [x.arg for x in a.kwonlyargs]
    if a.vararg or a.kwarg:
        if not set(PARAMS) <= set(pos + kwonly):
            out.append(Rec("und", "C05.params", name, "signature", "variadic signature"))
    else:
        good = pos == PARAMS and not kwonly and not a.posonlyargs
        out.append(Rec("ok" if good else "bad", "C05.params", name, "signature",
                       "parameters are %s" % (pos + kwonly), here))
        d = dict(zip(reversed(pos), reversed(f.defaults)))
        d.update({k: v for k, v in f.kwdefaults.items()})
        for p in PARAMS[:4]:
            out.append(Rec("bad" if p in d else "ok", "C05.defaults", name, p, "required parameter %s has a default" % p, here))
        for p, w in WANT.items():
            v = d.get(p)
            ok = isinstance(v, T) and v.op == "const" and v.kind == ("int" if p == "M" else "bool") and v.val == w
            out.append(Rec("ok" if ok else "bad", "C05.defaults", name, p, "default of %s is %s" % (p, show(v) if isinstance(v, T) else v), here))
        for p in ("maxiter", "atol", "rtol"):
            v = d.get(p)
            ok = isinstance(v, T) and v.op == "const" and v.kind in ("int", "real") and v.rng.pos() and (
                v.kind == "int" if p == "maxiter" else v.rng.hi < 1)
            if isinstance(v, T) and v.op != "const":
                out.append(Rec("und", "C05.defaults", name, p, "default is not a literal"))
                continue
            out.append(Rec("ok" if ok else "bad", "C05.defaults", name, p, "default of %s is %s" % (p, show(v) if isinstance(v, T) else v), here))
    multi = any(underlying(g).node is f.node for g in registry(I, "MULTI_REV_SOLVERS"))
    for M in ((0, "pos") if multi else (0,)):
        for fo in (False, True):
            tag = "M=%s full_output=%s" % (M, fo)
            r = SolverRun(root, name, I=I, M=M, fo=fo)
            if not r.returned:
                out.append(Rec("bad", "C05.shape", name, tag, "nothing is returned (%s)" % ", ".join(sorted({"%s: %s" % (x.exc, x.msg) for x in r.raises if x.why != "raise"})), here))
                continue
            for k, (st, v) in enumerate(r.rets):
                out.append(shape(U, name, tag + " return %d" % k, v, fo, here))
            out.append(shape(U, name, tag, r.ret, fo, here))
            if not fo:
                out.append(order(U, name, tag, r, M, here))
    return out


def order(U, name, tag, r, M, here):
    """The two velocities stand in the order of the two positions."""
    v = r.velocities()
    if v is None:
        return Rec("und", "C05.order", name, tag, "result not resolved", here)
    bad, good = point.refute(U, r.pc, v[0], v[1], M, 0, trials=60)
    if len(bad) >= 3 and not good:
        bad, good = point.refute(U, r.pc, v[1], v[0], M, 0, trials=60)
        if good >= 3 and not bad:
            return Rec("bad", "C05.order", name, tag, "the first velocity belongs to the final position and the second to the initial one", here)
    return Rec("ok", "C05.order", name, tag, site=here)


def shape(U, name, tag, v, fo, here):
    R = lambda s, m="": Rec(s, "C05.shape", name, tag, m, here)
    if isinstance(v, PyUnion):
        x, y = shape(U, name, tag, v.a, fo, here), shape(U, name, tag, v.b, fo, here)
        return x if x.status == "bad" else y
    if isinstance(v, T) and v.kind in ("any", "pack"):
        return R("und", "result not resolved")
    want = 4 if fo else 2
    if not isinstance(v, PyTuple) or len(v.elems) != want or v.kind not in ("tuple",):
        return R("bad", "returns %s instead of a %d-tuple" % (
            "a %s of %d" % (v.kind, len(v.elems)) if isinstance(v, PyTuple) else type(v).__name__, want))
    for lab, x, kinds in zip(("v1", "v2", "iterations", "seconds"), v.elems, (("vec",), ("vec",), ("int", "real"), ("real", "int"))):
        if not isinstance(x, T):
            if isinstance(x, PyTuple) and len(x.elems) == 3 and lab[0] == "v":
                return R("bad", "%s is a %s, not an array" % (lab, x.kind))
            return R("und", "%s not resolved" % lab)
        if x.kind in ("any", "arr"):
            return R("und", "kind of %s unknown" % lab)
        if x.kind not in kinds:
            return R("bad", "%s is a %s" % (lab, x.kind))
        if lab == "iterations" and x.kind == "real":
            return R("bad", "iteration count is not an integer")
    if fo:
        d = deps(U, [v.elems[3]])
        it = deps(U, [v.elems[2]])
        if "<clock>" in it:
            return R("bad", "iteration count depends on the clock")
        if "<clock>" not in d and not U.isnum(v.elems[3]):
            return R("bad", "time per iteration does not come from the clock")
        for x in reach([v.elems[3]]).values():
            if x.op == "sub" and x.args[0].op == x.args[1].op == "clock" and x.args[0].uid < x.args[1].uid:
                return R("bad", "elapsed time is computed as earlier minus later")
    return R("ok")
