"""Running the interpreter on a solver under a scenario, and comparing results."""
from __future__ import annotations

import ast
import sys
from fractions import Fraction

from .interp import (AnalysisError, Dead, Frame, Interp, PyDict, PyExt, PyFunc, PyPartial, PySummary, PyTuple,
                     PyUnion, PC, State, UNBOUND)
from .terms import INF, NONNEG, POS, Rng, T, TOP, reach, show

sys.setrecursionlimit(20000)

PARAMS = ["mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path", "maxiter", "atol", "rtol", "full_output"]
REQUIRED = PARAMS[:4]


def public_functions(I):
    """Name -> object of everything the package itself exports that looks like a solver."""
    m = I.modules.get("lamberthub")
    if m is None:
        raise AnalysisError("package lamberthub vanished")
    env = I.module_env(m)
    out = {}
    for name, v in env.items():
        if name.startswith("_"):
            continue
        f = underlying(v)
        if f is None:
            continue
        ps = params_of(f)
        if ps[:4] == REQUIRED:
            out[name] = v
    return out


def underlying(v):
    """The function definition behind an exported object (decorators unwrapped by the interpreter)."""
    if isinstance(v, PyFunc):
        return v
    if isinstance(v, PyPartial) and isinstance(v.f, PyFunc):
        return v.f
    return None


def params_of(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def registry(I, name):
    env = I.module_env(I.modules["lamberthub"])
    v = env.get(name)
    if not isinstance(v, PyTuple):
        raise AnalysisError("registry %s vanished or is not a literal sequence" % name)
    return v.elems


def solver_names(I):
    pub = public_functions(I)
    names = list(pub)
    for f in registry(I, "ALL_SOLVERS"):
        u = underlying(f)
        if u is not None and not any(underlying(pub[n]).node is u.node for n in pub):
            names.append(u.name)
    if not names:
        raise AnalysisError("no solver found in lamberthub")
    return names


def find_solver(I, name):
    env = I.module_env(I.modules["lamberthub"])
    v = env.get(name)
    if v is None:
        for f in registry(I, "ALL_SOLVERS"):
            u = underlying(f)
            if u is not None and u.name == name:
                return f
        raise AnalysisError("solver %s vanished" % name)
    return v


class Res:
    """Outcome of one abstract run."""

    def __init__(self):
        self.ret = None
        self.rets = []
        self.raises = []
        self.notes = []


def npbool(U, v):
    key = ("const", "npbool", v)
    t = U.tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.val, t.kind = "const", (), v, "npbool"
        t.site, t.uid, t.nonnull, t.rng = None, len(U.terms), False, TOP
        U.terms.append(t)
        U.tab[key] = t
    return t


def flag(U, name, v):
    if v == "sym":
        return U.input(name, "bool")
    if v in ("np1", "np0"):
        return npbool(U, v == "np1")
    if isinstance(v, bool):
        return U.const(v)
    return v


def std_args(U, M=0, prog=True, low=True, fo=False, over=None):
    if M == 0 and not isinstance(M, T):
        m = U.const(0)
    elif M == "pos":
        m = U.input("M", "int", Rng(1, False))
    elif M == "nonneg":
        m = U.input("M0", "int", Rng(0, False))
    elif M == "neg":
        m = U.input("M-", "int", Rng(hi=-1))
    else:
        m = U.const(M) if isinstance(M, int) else M
    args = {
        "mu": U.input("mu", "real", POS), "r1": U.input("r1", "vec", None, True),
        "r2": U.input("r2", "vec", None, True), "tof": U.input("tof", "real", POS), "M": m,
        "is_prograde": flag(U, "is_prograde", prog), "is_low_path": flag(U, "is_low_path", low),
        "maxiter": U.input("maxiter", "int", Rng(1, False)), "atol": U.input("atol", "real", POS),
        "rtol": U.input("rtol", "real", POS), "full_output": flag(U, "full_output", fo),
    }
    args.update(over or {})
    return args


def run_call(I, f, args, kw, assume=()):
    """Abstractly call f; collects merged value, per-return states and raises."""
    U = I.U
    r = Res()
    st = State({}, PC(U))
    for t, p in assume:
        n = st.pc.assume(t, p, asserted=False)
        if n is not None:
            st.pc = n
    u = underlying(f)
    if u is None:
        raise AnalysisError("not a function: %r" % (f,))
    top = PyFunc(u.node, u.module, None, [], {}, name="<top>")
    saved = I.stack, I.frames, I.raises, I.effects, I.notes, I.observers, I.calls
    I.stack = [top]
    I.frames = [Frame(top, st, True)]
    I.raises, I.effects, I.notes, I.calls = [], [], [], []
    rets = []

    def ob(ev, fn, a, s, site):
        if ev == "return" and len(I.stack) == 1:
            rets.append((fn, list(a)))

    I.observers = list(saved[5]) + [ob]
    r.base = st.pc
    try:
        r.ret = I.call(f, args, kw, st, u.node)
    except Dead:
        r.ret = None
    finally:
        r.raises, r.effects, r.notes, r.calls = I.raises, I.effects, I.notes, I.calls
        I.stack, I.frames, I.raises, I.effects, I.notes, I.observers, I.calls = saved
    r.pc = st.pc
    r.rets = rets[-1][1] if rets else []
    r.returned = bool(rets) and r.ret is not None
    return r


class SolverRun:
    def __init__(self, root, name, I=None, M=0, prog=True, low=True, fo=False, over=None, assume=(), setup=None,
                 omit=()):
        self.I = I or Interp(root)
        self.U = self.I.U
        self.name = name
        f = find_solver(self.I, name)
        self.f = f
        args = std_args(self.U, M, prog, low, fo, over)
        ps = params_of(underlying(f))
        a = underlying(f).node.args
        kw = {k: v for k, v in args.items() if (k in ps or a.kwarg) and k not in omit}
        self.args = kw
        if setup:
            setup(self)
        self.res = run_call(self.I, f, [], kw, assume(self) if callable(assume) else assume)
        for k in ("ret", "rets", "raises", "effects", "notes", "calls", "returned", "pc", "base"):
            setattr(self, k, getattr(self.res, k))

    def elems(self):
        v = self.ret
        if isinstance(v, PyTuple):
            return v.elems
        return None

    def velocities(self):
        e = self.elems()
        if e is None or len(e) < 2 or not all(isinstance(x, T) for x in e[:2]):
            return None
        return e[0], e[1]


# --------------------------------------------------------------------------
def flat_values(v):
    """All terms of a structured value."""
    if isinstance(v, T):
        yield v
    elif isinstance(v, (PyTuple, PySummary)):
        for x in v.elems:
            yield from flat_values(x)
    elif isinstance(v, PyDict):
        for x in v.items.values():
            yield from flat_values(x)
    elif isinstance(v, PyUnion):
        yield v.cond
        yield from flat_values(v.a)
        yield from flat_values(v.b)


class Bisim:
    """Coinductive equality of terms (loops compared through their recurrences)."""

    def __init__(self, U):
        self.U = U
        self.hyp = set()
        self.why = None

    def eq(self, a, b):
        todo = [(a, b)]
        mark = set(self.hyp)
        while todo:
            x, y = todo.pop()
            if x is y or (x.uid, y.uid) in self.hyp:
                continue
            self.hyp.add((x.uid, y.uid))
            sub = self._step(x, y)
            if sub is None:
                self.why = (x, y)
                self.hyp = mark
                return False
            todo += sub
        return True

    def _loops(self, la, lb):
        U = self.U
        ia, ib = U.loops.get(la), U.loops.get(lb)
        if ia is None or ib is None or len(ia.exits) != len(ib.exits) or len(ia.bounds) != len(ib.bounds):
            return None
        out = list(zip(ia.bounds, ib.bounds))
        for (t1, e1), (t2, e2) in zip(ia.exits, ib.exits):
            out.append((e1, e2))
        return out

    def _step(self, x, y):
        U = self.U
        if x.op != y.op or x.kind != y.kind and {x.kind, y.kind} - {"int", "real"}:
            return None
        if x.op == "mu":
            out = [(U.mu_init[x.uid], U.mu_init[y.uid])]
            n1, n2 = U.mu_next.get(x.uid), U.mu_next.get(y.uid)
            if (n1 is None) != (n2 is None):
                return None
            if n1 is not None:
                out.append((n1, n2))
            lp = self._loops(U.mu_loop[x.uid], U.mu_loop[y.uid])
            return None if lp is None else out + lp
        if x.op == "iv":
            return self._loops(x.val, y.val)
        if x.op == "exit":
            ca, cb = U.exit_conds_lits.get(x.uid, []), U.exit_conds_lits.get(y.uid, [])
            if len(ca) != len(cb) or [p for _, p in ca] != [p for _, p in cb]:
                return None
            la, lb = x.val[0], y.val[0]
            out = [(s, t) for (s, _), (t, _) in zip(ca, cb)]
            ia, ib = U.loops.get(la), U.loops.get(lb)
            if ia is None or ib is None or len(ia.bounds) != len(ib.bounds):
                return None
            return out + list(zip(ia.bounds, ib.bounds))
        if len(x.args) != len(y.args):
            return None
        if x.op in ("const", "input", "ext", "func"):
            return None
        if not x.args and x.op in ("opaque", "clock", "nonempty", "elem"):
            if not _same_val(x.val, y.val):
                return None
            return []
        if x.val is not None and not _same_val(x.val, y.val):
            return None
        if x.op in ("add", "mul", "and", "or", "eq", "dot", "max", "min") and len(x.args) == 2:
            a, b = x.args
            c, d = y.args
            if a is d or b is c or (a.op != c.op and a.op == d.op) or ((a.uid, d.uid) in self.hyp):
                return [(a, d), (b, c)]
        if x.op in ("and", "or") and len(x.args) > 2:
            # match identical members first
            ys = {t.uid: t for t in y.args}
            rx = [t for t in x.args if t.uid not in ys]
            rset = {t.uid for t in x.args}
            ry = [t for t in y.args if t.uid not in rset]
            return list(zip(rx, ry)) if len(rx) == len(ry) else None
        return list(zip(x.args, y.args))


def _strip(v):
    """Loop instance numbers differ between runs."""
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[0], tuple) and isinstance(v[1], int) and len(v[0]) == 3:
            return _strip(v[0])
        return tuple(_strip(x) for x in v)
    return v


def _same_val(a, b):
    return a == b or _strip(a) == _strip(b)


def value_eq(bs, a, b):
    """Bisimilarity of structured values."""
    if isinstance(a, T) and isinstance(b, T):
        return bs.eq(a, b)
    if isinstance(a, PyTuple) and isinstance(b, PyTuple):
        return len(a.elems) == len(b.elems) and all(value_eq(bs, x, y) for x, y in zip(a.elems, b.elems))
    if isinstance(a, PyUnion) and isinstance(b, PyUnion):
        return bs.eq(a.cond, b.cond) and value_eq(bs, a.a, b.a) and value_eq(bs, a.b, b.b)
    if a is None or b is None:
        return a is b
    return type(a) is type(b) and not isinstance(a, (PyTuple, PyUnion, T))


def deps(U, roots):
    """Names of the inputs (and 'clock') a set of terms depends on."""
    out = set()
    for t in reach(roots, U=U).values():
        if t.op == "input":
            out.add(t.val)
        elif t.op == "clock":
            out.add("<clock>")
    return out


def pc_terms(pc):
    return [t for t, _ in pc.asserted]


class Rec:
    """One obligation: ok / bad / und."""

    def __init__(self, status, rule, unit, construct, msg="", site=None, detail=None):
        self.status, self.rule, self.unit, self.construct = status, rule, unit, construct
        self.msg, self.site, self.detail = msg, site, detail

    @property
    def key(self):
        return "%s|%s|%s" % (self.rule, self.unit, self.construct)

    def as_dict(self):
        return {"status": self.status, "rule": self.rule, "unit": self.unit, "construct": self.construct,
                "msg": self.msg, "site": list(self.site) if self.site else None, "detail": self.detail}


def site_str(s):
    return "%s:%s (%s)" % (s[0], s[1], s[2]) if s else "?"
