"""C24 - integer inputs are computed in floating point."""
import ast

from .. import nty
from ..run import *
from . import C16

RULES = {
    "C24.product": "no product or power of the caller's integers (or of integers made from them) is formed before they are converted to floating point: it would exceed 64 bits and wrap silently",
    "C24.store": "no floating-point value is stored in an array whose element type is taken from the caller's integers",
    "C24.result": "the velocities returned are floating-point numbers",
}
EXPLANATION = ("Numeric types (integer of the caller, small integer, floating point, truth value, arrays of these) are inferred by an abstract interpretation of the syntax trees that starts at every solver "
               "with integer arguments and at every utility function, follows all calls (closures and functions handed to root finders included), joins branches and iterates loops to a fixed point.")
ASSUMPTIONS = ["calls that cannot be resolved return values of unknown type, which are never reported", "sums and multiples by small constants of the caller's integers stay within 64 bits"]
FLOOR = 60
FLOOR_UNITS = 25


def targets(root):
    I = Interp(root)
    out = {}
    for n in solver_names(I):
        f = underlying(find_solver(I, n))
        out["solver " + n] = (f.module.rel, f.node.name)
    mods = C16.load(root)
    for m in mods.values():
        if "/utils/" in m.rel or m.rel.endswith("linalg.py"):
            for n, d in m.defs.items():
                if isinstance(d, ast.FunctionDef) and not n.startswith("_"):
                    out.setdefault("utility " + n, (m.rel, n))
    return out, mods


def units(root, tier):
    return sorted(targets(root)[0])


def integers(name, solver):
    if name in ("M", "maxiter"):
        return nty.S
    if name in ("atol", "rtol", "tol"):
        return nty.F_
    if name.startswith(("is_", "full_")):
        return nty.B
    if name in ("r1", "r2", "v1", "v2", "vec", "vector", "position_vector", "r", "v"):
        return frozenset([("A", nty.I if solver else nty.S)])
    return nty.I if solver else nty.S


def run_unit(u, root, tier):
    tg, mods = targets(root)
    rel, name = tg[u]
    m = next(x for x in mods.values() if x.rel == rel)
    d = m.defs[name]
    solver = u.startswith("solver") or rel.endswith("linalg.py")
    T = nty.Typer(mods, C16.resolve)
    (_, k), = T.fn(d, m, None)
    ps = [a.arg for a in d.args.posonlyargs + d.args.args]
    r = T.call(k, [integers(p, solver) for p in ps], {a.arg: integers(a.arg, solver) for a in d.args.kwonlyargs})
    here = (rel, d.lineno, d.name)
    out = []
    for rule in ("product", "store"):
        bad = [(k, v) for k, v in sorted(T.alarms.items()) if v[0] == rule]
        for _, (_, msg, site) in bad:
            out.append(Rec("bad", "C24." + rule, u, "%s: %s" % (site[2], msg[-60:]), msg, site))
        if not bad:
            out.append(Rec("ok", "C24." + rule, u, "%d functions, %d operations" % (len(T.nfun), T.nops), "", here))
    for _, what in sorted(T.unknown.items()):
        out.append(Rec("und", "C24.product", u, what, "cannot be resolved", here))
    if u.startswith("solver"):
        vs = []
        for a in r:
            if isinstance(a, tuple) and a[0] == "T":
                vs += list(a[1][:2])
        el = frozenset().union(*[nty.elem(v) for v in vs]) if vs else nty.U
        st = "ok" if el == nty.F_ else "bad" if el & {"I", "s", "b"} and all(nty.elem(v) and nty.elem(v) <= {"I", "s", "b"} for v in vs) else "und"
        out.append(Rec(st, "C24.result", u, "velocities", "types %s" % sorted(el, key=str), here))
    return out
