"""C06 - asking for full output changes nothing but the shape of the answer."""
from ..run import *
from .C05 import shape
from .C15 import divisor

RULES = {
    "C06.same": "the velocities (and the iteration count, when both paths compute it) computed with full_output=True are "
                "bisimilar, as value graphs with loops, to those computed with full_output=False",
    "C06.raises": "the sequence of reachable raises (exception, place, condition) is the same with and without full_output",
    "C06.clock": "no velocity, iteration count, branch, loop or raise condition depends on a clock reading",
}
EXPLANATION = ("Each solver is interpreted twice in one hash-consed universe, with full_output on and off; a coinductive "
               "comparison decides equality of the returned value graphs and of the raise conditions; clock reads are "
               "tracked as taint to every returned value and path condition.")
ASSUMPTIONS = ["inputs are valid"]
FLOOR = 60
FLOOR_UNITS = 10


def units(root, tier):
    return solver_names(Interp(root))


def run_unit(name, root, tier):
    I = Interp(root)
    U = I.U
    out = []
    f = underlying(find_solver(I, name))
    here = (f.module.rel, f.node.lineno, f.name)
    multi = any(underlying(g).node is f.node for g in registry(I, "MULTI_REV_SOLVERS"))
    combos = [(M, p, l) for M in ((0, "pos") if multi else (0,)) for p in (True, False) for l in (True, False)]
    if not multi:
        combos.append(("pos", True, True))
    for M, p, l in combos:
        tag = "M=%s prograde=%s low=%s" % (M, p, l)
        a = SolverRun(root, name, I=I, M=M, prog=p, low=l, fo=False)
        b = SolverRun(root, name, I=I, M=M, prog=p, low=l, fo=True)
        bs = Bisim(U)
        if a.returned != b.returned:
            out.append(Rec("bad", "C06.same", name, tag, "a result is returned only with full_output=%s" % b.returned, here))
        elif a.returned:
            va, vb = a.elems(), b.elems()
            if shape(U, name, tag, a.ret, False, here).status == "ok" and shape(U, name, tag, b.ret, True, here).status == "bad":
                out.append(Rec("bad", "C06.same", name, tag, "asking for full_output changes the result beyond adding the count and the time: " +
                               shape(U, name, tag, b.ret, True, here).msg, here))
            elif va is None or vb is None or len(va) < 2 or len(vb) < 2:
                out.append(Rec("und", "C06.same", name, tag, "result not resolved"))
            else:
                for i, lab in ((0, "v1"), (1, "v2")):
                    ok = value_eq(bs, va[i], vb[i])
                    why = ""
                    site = here
                    if not ok and bs.why:
                        why = "%s versus %s" % (show(bs.why[0], 3), show(bs.why[1], 3))
                        site = bs.why[1].site or here
                    out.append(Rec("ok" if ok else "bad", "C06.same", name, "%s %s" % (lab, tag),
                                   "%s differs when full_output is requested: %s" % (lab, why), site))
        out.append(cmp_raises(U, bs, name, tag, a.raises, b.raises, here))
        if b.returned and b.elems() and len(b.elems()) == 4 and isinstance(b.elems()[3], T):
            d = divisor(U, name, tag, b.elems()[3], b.pc, here)
            if d.status == "bad":
                d.rule, d.construct, d.msg = "C06.raises", "time per iteration " + tag, "fails with full_output only: " + d.msg
                out.append(d)
        for run, lab in ((a, "off"), (b, "on")):
            roots = []
            if run.elems():
                roots += [x for x in run.elems()[:3] if isinstance(x, T)]
            for st, _ in run.rets:
                roots += pc_terms(st.pc)
            rr = []
            for x in run.raises:
                rr += pc_terms(x.pc)
            d = deps(U, roots + rr)
            out.append(Rec("bad" if "<clock>" in d else "ok", "C06.clock", name, "%s full_output %s" % (tag, lab),
                           "a returned value or a branch depends on a clock reading", here))
    return out


def cmp_raises(U, bs, name, tag, ra, rb, here):
    R = lambda s, m="", site=here: Rec(s, "C06.raises", name, tag, m, site)
    ka = [(x.exc, x.why) for x in ra]
    kb = [(x.exc, x.why) for x in rb]
    if ka != kb:
        extra = [x for x in rb if (x.exc, x.site) not in {(y.exc, y.site) for y in ra}] or \
                [x for x in ra if (x.exc, x.site) not in {(y.exc, y.site) for y in rb}]
        s = extra[0] if extra else None
        return R("bad", "reachable failures differ with full_output: %s" % ("%s at %s" % (s.exc, site_str(s.site)) if s else "%d versus %d" % (len(ka), len(kb))),
                 s.site if s else here)
    for x, y in zip(ra, rb):
        lx = [(t, p) for t, p in x.pc.asserted]
        ly = [(t, p) for t, p in y.pc.asserted]
        if len(lx) != len(ly) or any(p != q for (_, p), (_, q) in zip(lx, ly)) or not all(bs.eq(s, t) for (s, _), (t, _) in zip(lx, ly)):
            return R("bad", "the condition of %s at %s depends on full_output" % (x.exc, site_str(x.site)), x.site)
    return R("ok")
