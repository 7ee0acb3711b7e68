"""C13 - the low/high path selector."""
from .. import kep, point
from ..run import *
from .C06 import cmp_raises

RULES = {
    "C13.zero": "for M=0 the velocities and the reachable failures with is_low_path=True are bisimilar to those with is_low_path=False",
    "C13.multi": "for M>=1, in a solver listed as multi-revolution, both velocities for the low path are not bisimilar to those for the high path",
    "C13.truth": "numpy booleans select the same path as Python booleans of the same truth value",
}
EXPLANATION = ("Each solver is interpreted with the selector set to True, False, numpy.True_ and numpy.False_ in one "
               "hash-consed universe and the resulting value graphs are compared coinductively.")
ASSUMPTIONS = ["inputs are valid"]
FLOOR = 60
FLOOR_UNITS = 10


def units(root, tier):
    return solver_names(Interp(root))


def run_unit(name, root, tier):
    I = Interp(root)
    U = I.U
    out = []
    f = underlying(find_solver(I, name))
    here = (f.module.rel, f.node.lineno, f.name)
    multi = any(underlying(g).node is f.node for g in registry(I, "MULTI_REV_SOLVERS"))
    for prog in (True, False):
        tag = "prograde=%s" % prog
        base = SolverRun(root, name, I=I, M=0, prog=prog, low=True)
        for low in (False, "np1", "np0"):
            o = SolverRun(root, name, I=I, M=0, prog=prog, low=low)
            bs = Bisim(U)
            t = "%s low=True/%s" % (tag, low)
            out += same(bs, "C13.zero", name, t, base, o, here)
            r = cmp_raises(U, bs, name, t, base.raises, o.raises, here)
            r.rule = "C13.zero"
            r.msg = r.msg.replace("full_output", "is_low_path")
            r.construct = "raises " + t
            out.append(r)
        if not multi:
            continue
        runs = {l: SolverRun(root, name, I=I, M="pos", prog=prog, low=l) for l in (True, False, "np1", "np0")}
        if not all(x.returned for x in runs.values()):
            # C02 reports solvers that never return
            out.append(Rec("bad", "C13.multi", name, tag, "no result on one of the paths", here))
            continue
        for i, lab in ((0, "v1"), (1, "v2")):
            ok = Bisim(U).eq(runs[True].elems()[i], runs[False].elems()[i])
            out.append(Rec("bad" if ok else "ok", "C13.multi", name, "%s %s" % (lab, tag),
                           "%s is the same for the low and the high path" % lab, here))
        out += regions(U, name, tag, runs[True], runs[False], prog, here)
        if prog:
            for m in (1, 2, 3, 5, 8):
                a, b = [SolverRun(root, name, I=I, M=m, prog=prog, low=l) for l in (True, False)]
                if not a.returned or not b.returned:
                    continue
                for i, lab in ((0, "v1"), (1, "v2")):
                    ok = Bisim(U).eq(a.elems()[i], b.elems()[i])
                    out.append(Rec("bad" if ok else "ok", "C13.multi", name, "%s M=%d" % (lab, m),
                                   "%s is the same for the low and the high path when M is %d" % (lab, m), here))
        for p, q in ((True, "np1"), (False, "np0")):
            out += same(Bisim(U), "C13.truth", name, "%s low=%s/%s" % (tag, p, q), runs[p], runs[q], here)
        I.compiled = False
        for p, q in ((True, "np1"), (False, "np0")):
            a = SolverRun(root, name, I=I, M="pos", prog=prog, low=p)
            b = SolverRun(root, name, I=I, M="pos", prog=prog, low=q)
            out += same(Bisim(U), "C13.truth", name, "%s low=%s/%s interpreted" % (tag, p, q), a, b, here)
        I.compiled = True
    return out


def regions(U, name, tag, a, b, prog, here):
    """The two paths give different velocities in every region of the inputs that is sampled (one of which may
    be a region where a selection is taken that ignores the path)."""
    eqs = [[kep.Equation(U, st.pc, *list(flat_values(v))[:2], M="pos") for st, v in r.rets if len(list(flat_values(v))) >= 2] for r in (a, b)]

    def at(es, seed, k, inp):
        for E in es:
            try:
                E.share = {}
                P = E.at(seed, k, inp, E.states(seed, k, inp), inp["tof"])
                v = E.vel(P)
                if point.satisfied(P, E.pc):
                    # selections that the point does not decide are drawn at random: no verdict then
                    return None if P.atoms else v
            except (point.Unk, ZeroDivisionError, OverflowError, ValueError, TypeError):
                continue
        return None
    both, hits = 0, []
    pts = [(i, kep.geometry(i, "pos", prog)[0]) for i in range(24)]
    for E in eqs[0][:2] + eqs[1][:2]:
        pts += [(i, inp) for i, inp, _, tol in kep.directed(E, "pos", prog, 2)]
    for i, inp in pts:
        vs = []
        for k in (2, 5):
            x, y = at(eqs[0], (i, k), k, inp), at(eqs[1], (i, k), k, inp)
            if x is None or y is None:
                break
            vs.append(max(kep.nrm(tuple(p - q for p, q in zip(s, t))) / kep.nrm(s) for s, t in zip(x, y)))
        if len(vs) == 2:
            both += 1
            if max(vs) < 1e-12:
                hits.append(inp)
    if len(hits) >= 2:
        h = hits[0]
        return [Rec("bad", "C13.multi", name, "regions, " + tag, "both velocities are the same for the low and the high path at %d of %d points, such as M=%s, tof=%.4g" % (
            len(hits), both, h["M"], h["tof"]), here)]
    # (solvers whose passes leave selections open at every point are judged by the comparison of the graphs alone)
    return [Rec("ok", "C13.multi", name, "regions, " + tag, "different at %d points" % both, here)] if both >= 4 else []


def same(bs, rule, name, tag, a, b, here):
    if a.returned != b.returned:
        return [Rec("bad", rule, name, tag, "one of the two calls never returns", here)]
    if not a.returned:
        return []
    va, vb = a.velocities(), b.velocities()
    if va is None or vb is None:
        return [Rec("und", rule, name, tag, "result not resolved")]
    out = []
    for lab, x, y in zip(("v1", "v2"), va, vb):
        ok = bs.eq(x, y)
        why = "%s versus %s" % (show(bs.why[0], 3), show(bs.why[1], 3)) if not ok and bs.why else ""
        out.append(Rec("ok" if ok else "bad", rule, name, "%s %s" % (lab, tag), "%s differs: %s" % (lab, why),
                       (bs.why[0].site if not ok and bs.why else None) or here))
    return out
