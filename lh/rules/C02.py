"""C02 - the solver registries tell the truth about revolutions."""
from ..run import *
from ..interp import exc_isa

RULES = {
    "C02.registry": "ALL_SOLVERS lists every exported solver exactly once and every other registry is a duplicate-free subset of it",
    "C02.zero": "every solver of ALL_SOLVERS has a path that returns for M=0",
    "C02.refuse": "a solver outside MULTI_REV_SOLVERS has no returning path for M>=1 and every such path ends in ValueError",
    "C02.multi": "a solver inside MULTI_REV_SOLVERS returns for M>=1 and both velocities depend on M; every one of "
                 "M = 1, 2, 3, 4, 7, 8, 20, 21 is answered, neighbouring ones by different value graphs",
    "C02.infeasible": "a solver inside MULTI_REV_SOLVERS has a ValueError path decided by a comparison that involves M and the time of flight",
}
EXPLANATION = ("Registry contents are resolved by abstract interpretation of the package; each solver is interpreted with "
               "M=0 and with symbolic M>=1; set of outcomes, dependence of the returned values on M and the conditions "
               "of the raises are compared with the registry the solver is in.")
ASSUMPTIONS = ["inputs are valid (positive mu and tof, two distinct non-null positions)"]
FLOOR = 40
FLOOR_UNITS = 10


def units(root, tier):
    return ["<registries>"] + solver_names(Interp(root))


def _nodes(I, reg):
    out = []
    for f in registry(I, reg):
        u = underlying(f)
        if u is None:
            raise AnalysisError("registry %s holds a non-function" % reg)
        out.append(u.node)
    return out


def run_unit(name, root, tier):
    I = Interp(root)
    U = I.U
    out = []
    if name == "<registries>":
        pub = public_functions(I)
        alln = _nodes(I, "ALL_SOLVERS")
        for n, f in pub.items():
            c = sum(1 for x in alln if x is underlying(f).node)
            out.append(Rec("ok" if c == 1 else "bad", "C02.registry", name, n, "exported solver %s appears %d times in ALL_SOLVERS" % (n, c),
                           ("src/lamberthub/__init__.py", 0, n)))
        for reg in ("ALL_SOLVERS", "ZERO_REV_SOLVERS", "MULTI_REV_SOLVERS", "NON_ROBUST_SOLVERS", "ROBUST_SOLVERS"):
            ns = _nodes(I, reg)
            bad = [x.name for x in ns if not any(x is y for y in alln)]
            dup = len(set(map(id, ns))) != len(ns)
            out.append(Rec("bad" if bad or dup else "ok", "C02.registry", name, reg,
                           "%s is not a duplicate-free subset of ALL_SOLVERS (%s)" % (reg, bad or "duplicate"),
                           ("src/lamberthub/__init__.py", 0, reg)))
        for s in I.modules["lamberthub"].env:
            pass
        rob, non = _nodes(I, "ROBUST_SOLVERS"), _nodes(I, "NON_ROBUST_SOLVERS")
        both = [x.name for x in rob if any(x is y for y in non)]
        out.append(Rec("bad" if both else "ok", "C02.registry", name, "ROBUST/NON_ROBUST", "%s is listed as both robust and non robust" % both,
                       ("src/lamberthub/__init__.py", 0, "ROBUST_SOLVERS")))
        return out
    multi = any(underlying(f).node is underlying(find_solver(I, name)).node for f in registry(I, "MULTI_REV_SOLVERS"))
    f = underlying(find_solver(I, name))
    here = (f.module.rel, f.node.lineno, f.name)
    flags = [(p, l) for p in (True, False) for l in (True, False)]
    for p, l in flags:
        r = SolverRun(root, name, I=I, M=0, prog=p, low=l)
        out.append(Rec("ok" if r.returned else "bad", "C02.zero", name, "prograde=%s low=%s" % (p, l),
                       "no path returns a zero-revolution transfer", here))
        r = SolverRun(root, name, I=I, M="pos", prog=p, low=l)
        tag = "prograde=%s low=%s" % (p, l)
        if not multi:
            if r.returned:
                out.append(Rec("bad", "C02.refuse", name, tag, "returns for M>=1 although it is not a multi-revolution solver", here))
            else:
                w = [x for x in r.raises if not exc_isa(x.exc, "ValueError")]
                out.append(Rec("bad" if w else "ok", "C02.refuse", name, tag,
                               "answers M>=1 with %s instead of ValueError" % (w[0].exc if w else ""), w[0].site if w else here))
            continue
        if not r.returned:
            out.append(Rec("bad", "C02.multi", name, tag, "multi-revolution solver never returns for M>=1", here))
            continue
        v = r.velocities()
        if v is None:
            out.append(Rec("und", "C02.multi", name, tag, "result not resolved"))
        else:
            miss = [n for n, x in zip(("v1", "v2"), v) if "M" not in deps(U, [x])]
            out.append(Rec("bad" if miss else "ok", "C02.multi", name, tag, "%s does not depend on M" % miss, here))
        hit = None
        for x in r.raises:
            if not exc_isa(x.exc, "ValueError") or x.why == "ext" or not x.pc.asserted:
                continue
            t, _ = x.pc.asserted[-1]
            if t.op == "exit":
                continue
            d = deps(U, [t])
            if "M" in d and "tof" in d and _compares(t):
                hit = x
        out.append(Rec("ok" if hit else "bad", "C02.infeasible", name, tag,
                       "no ValueError is decided by comparing the requested M with the time of flight", hit.site if hit else here))
    if multi:
        out += _each(I, root, name, here)
    return out


COUNTS = (1, 2, 3, 4, 7, 8, 20, 21)


def _each(I, root, name, here):
    """Particular numbers of revolutions: every one is answered, and neighbouring ones differently."""
    U, out, runs = I.U, [], {}
    for low in (True, False):
        for m in COUNTS:
            r = runs[m] = SolverRun(root, name, I=I, M=m, prog=True, low=low)
            if not r.returned:
                out.append(Rec("bad", "C02.multi", name, "M=%d low=%s" % (m, low), "never returns a transfer of %d revolutions" % m, here))
            q = runs.get(m - 1)
            if q is None or not r.returned or not q.returned or low is False and m > 4:
                continue
            a, b = q.velocities(), r.velocities()
            if a is None or b is None:
                continue
            same = [n for n, x, y in zip(("v1", "v2"), a, b) if Bisim(U).eq(x, y)]
            out.append(Rec("bad" if same else "ok", "C02.multi", name, "M=%d/%d low=%s" % (m - 1, m, low),
                           "%s is computed alike for %d and for %d revolutions" % (" and ".join(same), m - 1, m), here))
        runs = {}
    return out


def _compares(t):
    return any(x.op in ("lt", "eq") for x in reach([t]).values())
