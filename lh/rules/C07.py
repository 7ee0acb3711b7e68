"""C07 - solvers are pure functions of their arguments."""
from ..run import *

RULES = {
    "C07.effects": "no statement reachable from the entry point writes to an argument, to module or enclosing state, or performs I/O "
                   "or a non-deterministic call",
    "C07.alias": "no returned value aliases an argument or a module-level array",
    "C07.state": "no returned value or branch reads module state that reachable code can modify, nor a random or clock source",
}
EXPLANATION = ("Effect analysis over the fully inlined call graph of every public solver and of every utility function: "
               "stores, augmented assignments, in-place numpy methods, out= arguments, global/nonlocal writes, attribute "
               "stores and calls to impure library functions are collected with alias tracking to the arguments.")
ASSUMPTIONS = ["library functions outside the impure list do not modify their arguments"]
FLOOR = 60
FLOOR_UNITS = 10


def units(root, tier):
    I = Interp(root)
    us = [("solver", n) for n in solver_names(I)]
    for m in sorted(I.modules):
        if ".utils." in m or m.endswith(".linalg") or m.endswith("_solvers.utils"):
            us.append(("module", m))
    return us


BAD = {"mutate-input", "mutate-nonlocal", "global-write", "nonlocal-write", "setattr", "impure", "unknown-ext"}


def run_unit(u, root, tier):
    kind, name = u
    I = Interp(root)
    U = I.U
    out = []
    if kind == "module":
        return module_unit(I, u)
    f = underlying(find_solver(I, name))
    here = (f.module.rel, f.node.lineno, f.name)
    multi = any(underlying(g).node is f.node for g in registry(I, "MULTI_REV_SOLVERS"))
    for M in ((0, "pos") if multi else (0,)):
        for p, l, fo in [(p, l, fo) for p in (True, False) for l in (True, False) for fo in (True, False)]:
            tag = "M=%s prograde=%s low=%s full_output=%s" % (M, p, l, fo)
            r = SolverRun(root, name, I=I, M=M, prog=p, low=l, fo=fo)
            eff = [e for e in r.effects if e[0] in BAD]
            out.append(effrec(eff, name, tag, here))
            bad = None
            for lab, v in zip(("v1", "v2"), r.elems() or []):
                if isinstance(v, T) and alias(I, v):
                    bad = lab
            out.append(Rec("bad" if bad else "ok", "C07.alias", name, tag, "%s is (a view of) an argument" % bad, here))
    # state of the package that analysed code modified
    for key, fn in sorted(I.funcs_seen.items()):
        pass
    return out


def effrec(eff, name, tag, here):
    if eff:
        k, d, s, _ = eff[0]
        return Rec("bad", "C07.effects", name, "%s at %s" % (k, s[2]), "%s: %s" % (k, d), s)
    return Rec("ok", "C07.effects", name, tag, site=here)


def alias(I, v):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == "input" and x.kind in ("vec", "arr", "mat"):
            return True
        if x.op in ("view",):
            st.append(x.args[0])
        elif x.op == "gamma":
            st += [x.args[1], x.args[2]]
        elif x.op == "mu":
            st.append(I.U.mu_init[x.uid])
            n = I.U.mu_next.get(x.uid)
            if n is not None:
                st.append(n)
    return False


VEC = {"r1", "r2", "v1", "v2", "vector"}


def module_unit(I, u):
    """Every function of a helper module, on arguments of unknown kind."""
    U = I.U
    out = []
    m = I.modules[u[1]]
    env = I.module_env(m)
    for name, f in sorted(env.items()):
        if not isinstance(f, PyFunc) or f.module is not m:
            continue
        kw = {}
        for p in params_of(f):
            kw[p] = U.input(p, "vec", None, False) if p in VEC else U.input(p, "real")
        here = (m.rel, f.node.lineno, f.name)
        r = run_call(I, f, [], kw)
        out.append(effrec([e for e in r.effects if e[0] in BAD], u[1] + "." + name, "effects", here))
    return out
